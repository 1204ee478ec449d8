"""P21: hyperprior base class: parameter groups, straight-through quantisation, device bookkeeping."""
import itertools
import types

import torch
from torch import nn

from neuralcompression.models import HyperpriorAutoencoderBase

BOUNDS = "parameter groups: every combination of frozen/trainable for 6 parameters in nested modules with look-alike names; quantiser: every latent and mean in [-100,100], shapes up to 1x2x2x2; devices: every placement of 4 parameters on CPU or GPU (stand-in parameters)"
OUTSIDE = "real GPU transfers"
ASSUMPTIONS = ["parameter devices are stand-in objects since no GPU is present"]


class Bottle(nn.Module):
    def __init__(self):
        super().__init__()
        self.quantiles = nn.Parameter(torch.zeros(2))
        self.quantiles_matrix = nn.Parameter(torch.zeros(3))


class M(HyperpriorAutoencoderBase):
    def __init__(self):
        super().__init__()
        self.encoder = nn.Linear(1, 1)
        self.hyper_bottleneck = Bottle()
        self.deep = nn.Sequential(Bottle())


def groups(h):
    m = M()
    flags = {}
    for i, (n, p) in enumerate(m.named_parameters()):
        b = h.pybool("trainable%d" % i)
        p.requires_grad_(b)
        flags[n] = b
    mp, qp = m.collect_parameters()
    names = {id(p): n for n, p in m.named_parameters()}
    a, b = [names.get(id(p)) for p in mp], [names.get(id(p)) for p in qp]
    h.claim("quantile group is exactly the trainable quantile parameters", sorted(b) == sorted(n for n, f in flags.items() if f and n.split(".")[-1] == "quantiles"))
    h.claim("model group is exactly the other trainable parameters", sorted(a) == sorted(n for n, f in flags.items() if f and n.split(".")[-1] != "quantiles"))


def ste(shape, mean):
    def body(h):
        x = h.tensor("x", shape, dtype=torch.float64, lo=-100, hi=100)
        m = M()
        xg = x.clone().requires_grad_(True)
        w = h.tensor("w", shape, dtype=torch.float64, lo=-4, hi=4)
        if mean:
            mu = h.tensor("mu", shape, dtype=torch.float64, lo=-100, hi=100)
            mg = mu.clone().requires_grad_(True)
            y = m._ste_quantize(xg, mg)
            h.claim("rounded around the mean", h.close(y, torch.round(x - mu) + mu))
            gx, gm = torch.autograd.grad((y * w).sum(), (xg, mg), allow_unused=True)
            h.claim("the mean receives no net gradient", h.close(gm if gm is not None else torch.zeros(shape, dtype=torch.float64), torch.zeros(shape, dtype=torch.float64)))
        else:
            y = m._ste_quantize(xg)
            h.claim("rounded", h.close(y, torch.round(x)))
            gx, = torch.autograd.grad((y * w).sum(), (xg,))
        d = y.detach() - x
        h.claim("at most half a step away", h.all_((d <= 0.5 + 1e-9) & (d >= -0.5 - 1e-9)))
        h.claim("gradient passes straight through", h.close(gx, w))
    return body


class Placed(nn.Module):
    """module whose parameters report the given devices"""

    def __init__(self, *devs):
        super().__init__()
        self.devs = devs

    def parameters(self, recurse=True):
        return iter([types.SimpleNamespace(device=torch.device(d)) for d in self.devs])


class D(HyperpriorAutoencoderBase):
    def __init__(self, enc, hyp, deep):
        super().__init__()
        self.encoder, self.hyper_bottleneck, self.deep = enc, hyp, deep

    def parameters(self, recurse=True):
        return itertools.chain(*(m.parameters() for m in (self.encoder, self.hyper_bottleneck, self.deep)))


def devices(h):
    where = {n: h.pybool(n) for n in ("encoder.weight", "hyper.a", "hyper.b", "deep.c")}
    dv = ["cuda" if v else "cpu" for v in where.values()]
    m = D(Placed(dv[0]), Placed(dv[1], dv[2]), Placed(dv[3]))
    h.claim("all-on-CPU test", m._on_cpu() == (not any(where.values())))
    for f in (m._check_compress_devices, m._set_devices_for_compress):
        try:
            f()
            h.claim("coding layers must be declared first", False)
        except RuntimeError:
            h.claim("coding layers must be declared first", True)
    m.set_compress_cpu_layers([m.hyper_bottleneck, m.deep])
    h.claim("coding layers on CPU test", m._check_compress_devices() == (not any(f for n, f in where.items() if n != "encoder.weight")))
    h.claim("initial setting", m.device_setting == "forward")


def instances(tier):
    out = [dict(name="groups", body=groups, budget=120, max_paths=200)]
    for s, mu in itertools.product(((1,), (1, 2, 2, 2)), (False, True)):
        out.append(dict(name="ste/%s/%s" % ("x".join(map(str, s)), mu), body=ste(s, mu), budget=60, timeout=20))
    out.append(dict(name="devices", body=devices, budget=60))
    return out
