"""P35: respacing of diffusion timesteps and the options of the diffusion."""
import os
import sys

import torch

from vlib import elem as E
from vlib import symten as T
from vlib.elem import is_sym
from vlib.harness import REPO
from vlib.objarr import Num, oarr, val, vals

import checks.p34 as P  # installs the stand-ins for packages that are not installed

SU = P.SU
BOUNDS = "section lists of up to 4 sections with up to 12 steps each (20 with thorough) and every number of diffusion steps up to 4096 (512 for 3 or 4 sections); vlbN: N in {1,2,3,4,6,9,12} and every number of steps up to N*N+N+2; ddimN: every N and every number of steps up to 12; world sizes 1..8 with every amount of work up to 4096; every combination of the diffusion options"
OUTSIDE = "float rounding of the accumulated stride (decided over the reals), the diffusion itself (improved_diffusion)"
ASSUMPTIONS = ["improved_diffusion, hydra, omegaconf, wandb and plotly are replaced by recording stand-ins"]


class Steps:
    """a set of symbolic steps: the members, possibly repeated"""

    def __init__(self, xs=()):
        self.xs = list(xs)

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    def __or__(self, o):
        return Steps(self.xs + list(o))

    def add(self, x):
        self.xs.append(x)

    def update(self, *os):
        for o in os:
            self.xs += list(o)


def sset(xs=()):
    xs = list(xs)
    return Steps(xs) if any(isinstance(x, Num) for x in xs) else set(xs)


def run(h, n, counts):
    if h.symbolic:
        SU.set = sset
    try:
        return list(SU.space_timesteps(n, counts)), None
    except ValueError as e:
        return None, e
    finally:
        SU.__dict__.pop("set", None)


def steps(h, lo, hi):
    v = oarr(h.tensor("T", (), torch.int64, lo=lo, hi=hi))[()]
    return v if isinstance(v, Num) else int(v)


def anyof(cs):
    return E.bor(*cs) if cs else False


def member(x, xs):
    return anyof([E.eq(val(x), val(y)) for y in xs])


def count(xs):
    """how many different values"""
    r = 0
    for i, x in enumerate(xs):
        new = E.band(*[E.bnot(E.eq(val(x), val(y))) for y in xs[:i]]) if i else True
        r = E.add(r, E.ite(new, 1, 0))
    return r


def sections(counts, text, lo, hi):
    def body(h):
        n = steps(h, lo, hi)
        out, err = run(h, n, ",".join(map(str, counts)) if text else list(counts))
        m = len(counts)
        base, extra = n // m, n % m
        size, start = [], []
        at = 0
        for i in range(m):
            s = base + (1 if h.symbolic and T.S.path.branch(E.lt(i, val(extra))) or not h.symbolic and i < extra else 0)
            size.append(s)
            start.append(at)
            at = at + s
        short = anyof([E.lt(val(s), c) for s, c in zip(size, counts)])
        h.claim("an error exactly when a section is too short", E.bnot(short) if err is None else short)
        if err is not None:
            return
        h.claim("as many different steps as asked for", E.eq(count(out), sum(counts)))
        for x in out:
            h.claim("all of them steps of the original process", E.band(E.le(0, val(x)), E.lt(val(x), val(n))))
        for s, z, c in zip(start, size, counts):
            if c:
                h.claim("every section starts with its first step", member(s, out))
            if c > 1:
                h.claim("and ends with its last", member(s + z - 1, out))
            for k in range(c):
                den = 2 * max(c - 1, 1)
                near = []
                for x in out:
                    d = E.sub(E.mul(E.sub(val(x), val(s)), den), E.mul(2 * k, E.sub(val(z), 1)))
                    near.append(E.band(E.le(d, max(c - 1, 1)), E.le(-max(c - 1, 1), d), E.le(val(s), val(x)), E.lt(val(x), E.add(val(s), val(z)))))
                h.claim("and takes evenly spread steps", anyof(near) if c > 1 else True)
    return body


def vlb(N, lo, hi):
    def body(h):
        n = steps(h, lo, hi)
        out, err = run(h, n, "vlb%d" % N)
        q = n // N
        ok = E.band(E.lt(val(q), N), E.le(N, val(n)))
        h.claim("an error exactly when the steps cannot be chosen", ok if err is None else E.bnot(ok))
        if err is not None:
            return
        h.claim("as many different steps as asked for", E.eq(count(out), N))
        for x in out:
            h.claim("all of them steps of the original process", E.band(E.le(0, val(x)), E.lt(val(x), val(n))))
        for k in range(hi // N + 1):
            h.claim("a dense start", E.bor(E.le(val(q), k), member(k, out)))
        h.claim("the first and the last step are kept", E.band(member(0, out), member(n - 1, out)))
    return body


def ddim(lo, hi):
    def body(h):
        n = h.pyint("T", lo, hi)
        N = h.pyint("N", 1, hi + 1)
        out, err = run(h, n, "ddim%d" % N)
        ways = [i for i in range(1, n) if (n + i - 1) // i == N]
        h.claim("an error exactly when no stride gives that many steps", (err is None) == bool(ways))
        if err is None:
            s = sorted(out)
            h.claim("as many different steps as asked for", len(s) == N and s[0] == 0 and s[-1] < n)
            d = s[1] - s[0] if len(s) > 1 else None
            h.claim("at one stride", d is None or d in ways and s == list(range(0, n, d)))
            h.claim("the smallest that works", d is None or d == ways[0])
    return body


def divide(h):
    w = h.pyint("w", 1, 8)
    x = h.tensor("x", (), torch.int64, lo=0, hi=4096)
    x = oarr(x)[()]
    x = x if isinstance(x, Num) else int(x)

    def dm(a, b):
        return a // b, a % b
    SU.divmod = dm
    SU.dist = type("D", (), {"get_world_size": staticmethod(lambda: w)})
    try:
        r, err = SU.divide_by_n_proc(x), None
    except ValueError as e:
        r, err = None, e
    finally:
        SU.__dict__.pop("divmod", None)
        SU.dist = torch.distributed
    even = E.eq(E.remainder(val(x), w), 0)
    h.claim("an error exactly when the work cannot be shared evenly", even if err is None else E.bnot(even))
    if err is None:
        h.claim("the shares add up", E.eq(E.mul(val(r), w), val(x)))


class Rec:
    def __init__(self, **kw):
        self.kw = kw


class Names:
    def __init__(self, p):
        self.p = p

    def __getattr__(self, n):
        return (self.__dict__["p"], n)


def options(h):
    b = {k: h.pybool(k) for k in ("learn_sigma", "sigma_small", "use_kl", "predict_xstart", "rescale_timesteps", "rescale_learned_sigmas", "respace")}
    sched = ["linear", "cosine"][h.pyint("sched", 0, 1)]
    n = 10 + h.pyint("n", 0, 2)
    gd = SU.gd
    keep = dict(gd.__dict__)
    asked = []
    gd.LossType, gd.ModelMeanType, gd.ModelVarType = Names("loss"), Names("mean"), Names("var")
    gd.get_named_beta_schedule = lambda s, k: asked.append((s, k)) or "betas"
    old = SU.respace.SpacedDiffusion
    SU.respace.SpacedDiffusion = Rec
    try:
        kw = dict(b)
        resp = kw.pop("respace")
        d = SU.create_gaussian_diffusion(steps=n, noise_schedule=sched, timestep_respacing="3,2" if resp else "", **kw).kw
        want = set(SU.space_timesteps(n, "3,2")) if resp else set(range(n))
    finally:
        SU.respace.SpacedDiffusion = old
        for k in list(gd.__dict__):
            if k not in keep:
                del gd.__dict__[k]
        gd.__dict__.update(keep)
    h.claim("the noise schedule is that of all steps", asked == [(sched, n)] and d["betas"] == "betas")
    h.claim("all steps unless respaced", set(d["use_timesteps"]) == want)
    h.claim("loss", d["loss_type"] == ("loss", "RESCALED_KL" if b["use_kl"] else "RESCALED_MSE" if b["rescale_learned_sigmas"] else "MSE"))
    h.claim("mean parametrisation", d["model_mean_type"] == ("mean", "START_X" if b["predict_xstart"] else "EPSILON"))
    h.claim("variance parametrisation", d["model_var_type"] == ("var", "LEARNED_RANGE" if b["learn_sigma"] else "FIXED_SMALL" if b["sigma_small"] else "FIXED_LARGE"))
    h.claim("rescaling of the timesteps", d["rescale_timesteps"] == b["rescale_timesteps"])


def instances(tier):
    deep = tier != "quick"
    out = []
    lists = [(1,), (2,), (5,), (8,), (2, 3), (1, 4), (0, 3), (3, 1, 2), (2, 2, 2, 2), (4, 6)] + ([(12,), (16,), (7, 7), (5, 1, 6), (3, 4, 5, 6)] if deep else [(12,)])
    for i, c in enumerate(lists):
        out.append({"name": "sections/" + "-".join(map(str, c)), "group": "sections", "body": sections(c, i % 2 == 1, 1, 4096 if len(c) < 3 or deep else 512), "validate": 2, "timeout": 60, "max_paths": 400})
    for N in (1, 2, 3, 4, 6, 9) + ((12, 16, 20) if deep else (12,)):
        out.append({"name": "vlb/%d" % N, "group": "vlb", "body": vlb(N, 1, N * N + N + 2), "validate": 2, "timeout": 60, "max_paths": 400})
    out.append({"name": "ddim", "body": ddim(1, 12 if not deep else 20), "validate": 2, "max_paths": 5000})
    out.append({"name": "divide", "body": divide, "validate": 2, "max_paths": 400})
    out.append({"name": "options", "body": options, "validate": 2, "max_paths": 2000})
    return out
