"""P17: learning-rate schedules."""
import importlib.util
import math
import os

import torch

from neuralcompression.optim import IdentitySchedule, RampConstCosineLRSchedule, RampCosineLRSchedule

REPO = os.environ.get("VERIF_REPO", "/repo")
BOUNDS = "formulas: every (real) step in [0, 1e6], ramp and cosine lengths in [1, 1e5], total in [1, 1e6], minimum in [1e-12, 1/2], base rates in [1e-6, 10]; histories: every integer ramp 0..3, cosine 0..3, total 4..6 and 8 scheduler steps on two parameter groups"
OUTSIDE = "steps beyond the total number (clamped or periodic, unspecified); float rounding"
ASSUMPTIONS = ["cos axiomatised (range, monotone pieces, point enclosures)"]


def load(rel):
    spec = importlib.util.spec_from_file_location("vct_" + os.path.basename(rel)[:-3], os.path.join(REPO, rel))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def opt(lrs=(0.5, 0.25)):
    return torch.optim.SGD([dict(params=[torch.nn.Parameter(torch.zeros(1))], lr=l) for l in lrs])


def cos(x):
    return math.cos(x)


def mx(a, b):
    return torch.where(torch.as_tensor(a, dtype=torch.float64) >= b, torch.as_tensor(a, dtype=torch.float64), torch.as_tensor(b, dtype=torch.float64))


def rampconst(h):
    R, C, M = h.scalar("ramp", lo=1, hi=1e5), h.scalar("cosine", lo=1, hi=1e5), h.scalar("total", lo=1, hi=1e6)
    mn = h.scalar("min", lo=1e-12, hi=0.5)
    h.assume(R + C <= M)
    o = opt()
    s = h.scalar("step", lo=0, hi=1e6)
    h.assume(s <= M)
    sch = RampConstCosineLRSchedule(o, 4, 2, 2)
    sch = RampConstCosineLRSchedule(o, num_max_steps=M, num_ramp_steps=R, num_cosine_steps=C, min_val=mn)
    v = sch.lr_lambdas[0](s)
    v = torch.as_tensor(v, dtype=torch.float64)
    h.claim("between minimum and 1", h.all_((v >= mn) & (v <= 1)))
    if h.symbolic:
        inr, inc = s < R, s > M - C
    else:
        inr, inc = s < R, s > M - C
    if inr:
        h.claim("linear ramp from 0", h.close(v, mx(s / R, mn), tol=1e-9))
    elif inc:
        h.claim("cosine decay over the last steps", h.close(v, mx(cos((s - (M - C)) / C * math.pi / 2), mn), tol=1e-6))
    else:
        h.claim("constant in between", h.close(v, torch.tensor(1.0, dtype=torch.float64)))


def rampconst_mono(h):
    R, C, M = h.scalar("ramp", lo=1, hi=1e5), h.scalar("cosine", lo=1, hi=1e5), h.scalar("total", lo=1, hi=1e6)
    h.assume(R + C <= M)
    s, t = h.scalar("s", lo=0, hi=1e6), h.scalar("t", lo=0, hi=1e6)
    h.assume(s <= t)
    h.assume(R <= s)
    h.assume(t <= M)
    f = RampConstCosineLRSchedule(opt(), num_max_steps=M, num_ramp_steps=R, num_cosine_steps=C).lr_lambdas[0]
    a, b = torch.as_tensor(f(s), dtype=torch.float64), torch.as_tensor(f(t), dtype=torch.float64)
    h.claim("never rises after the ramp", h.le(b, a + (1e-6 if h.symbolic else 1.1e-6)))


def rampcos(h):
    R, M = h.scalar("ramp", lo=1, hi=1e5), h.scalar("total", lo=1, hi=1e6)
    mn = h.scalar("min", lo=1e-12, hi=0.5)
    h.assume(R <= M)
    s = h.scalar("step", lo=0, hi=1e6)
    h.assume(s <= M)
    v = torch.as_tensor(RampCosineLRSchedule(opt(), num_ramp_steps=R, num_max_steps=M, min_val=mn).lr_lambdas[0](s), dtype=torch.float64)
    h.claim("between minimum and 1", h.all_((v >= mn) & (v <= 1)))
    if s < R:
        h.claim("linear ramp from 0", h.close(v, mx(s / R, mn), tol=1e-9))
    else:
        h.claim("quarter cosine after the ramp", h.close(v, mx(cos((s - R) / M * math.pi / 2), mn), tol=1e-6))


def rampcos_mono(h):
    R, M = h.scalar("ramp", lo=1, hi=1e5), h.scalar("total", lo=1, hi=1e6)
    s, t = h.scalar("s", lo=0, hi=1e6), h.scalar("t", lo=0, hi=1e6)
    h.assume(s <= t)
    h.assume(R <= s)
    h.assume(t <= M)
    f = RampCosineLRSchedule(opt(), num_ramp_steps=R, num_max_steps=M).lr_lambdas[0]
    a, b = torch.as_tensor(f(s), dtype=torch.float64), torch.as_tensor(f(t), dtype=torch.float64)
    h.claim("never rises after the ramp", h.le(b, a + (1e-6 if h.symbolic else 1.1e-6)))


def pyref(kind, s, R, C, M, mn=1e-12):
    if kind == "id":
        return 1.0
    if s < R:
        return max(min(s / R, 1.0), mn)
    if kind == "rc":
        return max(math.cos((s - R) / M * math.pi / 2), mn)
    k = s - (M - C)
    return max(math.cos(k / C * math.pi / 2), mn) if k > 0 else 1.0


def history(kind):
    def body(h):
        R, M = h.pyint("ramp", 0, 3), h.pyint("total", 4, 6)
        C = h.pyint("cosine", 0, 3) if kind == "rcc" else 0
        o = opt()
        if kind == "id":
            sch = IdentitySchedule(o)
        elif kind == "rc":
            sch = RampCosineLRSchedule(o, R, M)
        else:
            sch = RampConstCosineLRSchedule(o, M, num_ramp_steps=R, num_cosine_steps=C)
        for k in range(M + 1):
            if k:
                o.step()
                sch.step()
            w = pyref(kind, k, R, C, M)
            got = [g["lr"] for g in o.param_groups]
            h.claim("every parameter group gets its base rate times the factor of the step", all(abs(g - b * w) <= 1e-9 for g, b in zip(got, (0.5, 0.25))))
    return body


def vct(kind):
    def body(h):
        S = load("projects/torch_vct/utils/schedulers.py")
        T, R = h.scalar("T", lo=3, hi=1e5), h.scalar("R", lo=1, hi=1e5)
        h.assume(R + 2 <= T)
        e = h.scalar("epoch", lo=0, hi=1e5)
        h.assume(e <= T - 1)
        b = [h.scalar("b0", lo=1e-6, hi=10), h.scalar("b1", lo=1e-6, hi=10)]
        eta = h.scalar("eta", lo=0, hi=1e-6)
        o = opt()
        if kind == "rampcos":
            s = S.LinearRampCosineLR(o, T_max=8, eta_min=0, ramp_len=2)
        elif kind == "warmcos":
            s = S.LinearWarmUpCosineLR(o, T_max=8, eta_min=0, ramp_len=2)
        else:
            s = S.LinearRampLinearLR(o, T_max=8, ramp_len=2)
        s.T_max, s.ramp_len, s.last_epoch, s.base_lrs = T, R, e, b
        if kind != "ramplin":
            s.eta_min = eta
        got = s.get_lr()
        h.claim("one rate per group", len(got) == 2)
        for g, base in zip(got, b):
            c = eta + (base - eta) * (1 + cos(math.pi * (e - R) / (T - R - 1))) / 2
            lin = base * (1 + e) / R
            g = torch.as_tensor(g, dtype=torch.float64)
            if kind == "ramplin":
                if e < R:
                    h.claim("linear ramp", h.close(g, lin, tol=1e-9))
                else:
                    h.claim("base rate after the ramp", h.close(g, torch.as_tensor(base, dtype=torch.float64), tol=1e-9))
            elif kind == "warmcos":
                if e < R:
                    h.claim("base rate during warm-up", h.close(g, torch.as_tensor(base, dtype=torch.float64), tol=1e-9))
                else:
                    h.claim("half cosine from base to minimum", h.close(g, c, tol=1e-6))
            else:
                c, lin = torch.as_tensor(c, dtype=torch.float64), torch.as_tensor(lin, dtype=torch.float64)
                h.claim("the smaller of ramp and half cosine", h.close(g, torch.where(c <= lin, c, lin), tol=1e-6))
    return body


def instances(tier):
    out = [dict(name="ramp-const-cosine", body=rampconst, budget=120, timeout=40), dict(name="ramp-cosine", body=rampcos, budget=120, timeout=40),
           dict(name="ramp-const-cosine/monotone", group="monotone", body=rampconst_mono, budget=120, timeout=40), dict(name="ramp-cosine/monotone", group="monotone", body=rampcos_mono, budget=120, timeout=40)]
    for k in ("id", "rc", "rcc"):
        out.append(dict(name="history/" + k, group="history", body=history(k), max_paths=200, budget=100))
    for k in ("rampcos", "warmcos", "ramplin"):
        out.append(dict(name="vct/" + k, body=vct(k), budget=120, timeout=40))
    return out
