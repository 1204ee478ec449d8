"""P34: the bits-back codec for hierarchical latent variable models is lossless, restartable and accounts for its bytes."""
import atexit
import collections
import importlib.machinery
import math
import os
import pathlib
import shutil
import sys
import tempfile
import types

import numpy as np
import torch
import z3
from scipy.stats import norm as NORM
from torch.utils._python_dispatch import _disable_current_modes

from vlib import elem as E
from vlib import symten as T
from vlib.elem import is_sym
from vlib.harness import REPO
from vlib.objarr import Num, NpProxy, OArr, oarr, val, vals

BOUNDS = ("1..3 latent steps, 1..2 dimensions, 1..3 batches, data precision 1..2 bits, every data value, every index the stack yields, every parameter the model returns; "
          "quantisation: every real in the data range at precision 1..8; observation bins: every mean, standard deviation and data range at precision 1..3; encoding script: every crash point of a run over 3 batches")
OUTSIDE = "craystack's own arithmetic coder (see P32 for the repository's rANS), the diffusion model's network and schedule, numpy's float rounding, torn checkpoint files"
ASSUMPTIONS = ["craystack is not installed: its codecs are replaced by abstract invertible stack operations, for which a pop undoes exactly a push with equal parameters and data and vice versa; BBANS, substack, flatten and unflatten follow its published definition",
               "the model's outputs are arbitrary but a function of their arguments", "improved_diffusion, hydra, omegaconf, wandb and plotly are replaced by recording stand-ins", "checkpoint files are written atomically"]

W = None  # the current world


def unknown(tag, key):
    """an unknown function of its arguments"""
    f = z3.Function("p34_%s_%d" % (tag, len(key)), *([z3.RealSort()] * (len(key) + 1)))
    return Num(f(*[E.R(val(k)) for k in key]))


# ----------------------------------------------------------------- stand-ins for packages that are not installed
def mod(name, **kw):
    m = types.ModuleType(name)
    m.__spec__ = importlib.machinery.ModuleSpec(name, None)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


Codec = collections.namedtuple("Codec", ["push", "pop"])


class Msg:
    """a message: what has been pushed on (or popped from) which message"""

    def __init__(self, kind, parent, key, data, nbytes, head):
        self.kind, self.parent, self.key, self.data, self.nbytes, self.head = kind, parent, key, data, nbytes, head
        self.tails, self.pushes = [], []


class Flat:
    def __init__(self, msg):
        self.msg = msg
        self.nbytes = msg.nbytes

    def copy(self):
        return Flat(self.msg)


class World:
    def __init__(self, h, shape, head=None):
        self.h, self.shape, self.view = h, tuple(shape), tuple(shape)
        self.head = int(np.prod(shape)) if head is None else head
        self.n = 0
        self.inits = []

    def name(self, tag):
        self.n += 1
        return "%s%d" % (tag, self.n)

    def ints(self, tag, shape, lo, hi):
        return oarr(self.h.tensor(self.name(tag), shape, torch.int64, lo=lo, hi=hi))

    def int(self, tag, lo, hi=None):
        v = self.h.tensor(self.name(tag), (), torch.int64, lo=0, hi=1 << 40)
        v = oarr(v)[()]
        if isinstance(v, Num):
            self.h.assume(E.le(val(lo), v.v))
            if hi is not None:
                self.h.assume(E.le(v.v, val(hi)))
            return v
        return int(v)

    def reals(self, tag, shape, **k):
        return oarr(self.h.tensor(self.name(tag), shape, torch.float64, **k))

    def same(self, a, b):
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
                continue
            if not is_sym(x) and not is_sym(y):
                if x != y:
                    return False
                continue
            if not (is_sym(x) and is_sym(y) and x.eq(y)):
                out.append(E.eq(val(x), val(y)))
        if not out:
            return True
        c = E.band(*out)
        return T.S.path.branch(c) if is_sym(c) else bool(c)

    # ---- the stack
    def push(self, msg, key, data):
        d = vals(data)
        if msg.kind == "tail" and self.same(msg.key, key) and self.same(vals(msg.data), d):
            return msg.parent if msg.parent.head == msg.head else self.rehead(msg.parent, msg.head)
        for k, dd, m in msg.pushes:
            if self.same(k, key) and self.same(dd, d):
                return m
        m = Msg("push", msg, key, data, self.int("up", msg.nbytes), msg.head)
        msg.pushes.append((key, d, m))
        return m

    def pop(self, msg, key, hi):
        if msg.kind == "push" and self.same(msg.key, key):
            return (msg.parent if msg.parent.head == msg.head else self.rehead(msg.parent, msg.head)), msg.data
        for k, m in msg.tails:
            if self.same(k, key):
                return m, m.data
        data = self.ints("ix", self.view, 0, hi - 1)
        m = Msg("tail", msg, key, data, self.int("dn", 0, msg.nbytes), msg.head)
        msg.tails.append((key, m))
        return m, data

    def rehead(self, msg, head):
        m = Msg(msg.kind, msg.parent, msg.key, msg.data, msg.nbytes, head)
        m.tails, m.pushes = msg.tails, msg.pushes
        m.origin = getattr(msg, "origin", msg)
        return m

    def codec(self, push_key, pop_key, hi):
        def push(message, data):
            return (self.push(message, push_key, data),)

        def pop(message):
            return self.pop(message, pop_key, hi)
        return Codec(push, pop)


def origin(m):
    return getattr(m, "origin", m)


def uniform(prec):
    return W.codec(["U", prec], ["U", prec], 1 << prec)


def gauss(mean, stdd, bmean, bstdd, coding_prec, bin_prec):
    key = ["G", coding_prec, bin_prec] + [x for a in (mean, stdd, bmean, bstdd) for x in vals(np.broadcast_to(np.asarray(a), W.view) if not isinstance(a, OArr) else a)]
    return W.codec(key, key, 1 << bin_prec)


def nonuniform(enc, dec, prec):
    return W.codec(["N", prec] + enc[1], ["N", prec] + dec[1], dec[2])


def random_message(flat_len, shape):
    m = Msg("init", None, None, None, W.int("init", 0), tuple(np.atleast_1d(shape).tolist()))
    W.inits.append(m)
    return m


def substack(codec, view):
    def on(message):
        head = np.arange(int(np.prod(message.head))).reshape(message.head)
        v = np.asarray(view(head))
        W.h.claim("the codec works on one head entry per dimension of the data", v.shape == W.shape and len(set(v.reshape(-1).tolist())) == v.size)
        W.view = v.shape

    def push(message, data):
        on(message)
        return codec.push(message, data)

    def pop(message):
        on(message)
        return codec.pop(message)
    return Codec(push, pop)


def unflatten(flat, shape):
    if int(np.prod(shape)) != int(np.prod(flat.msg.head)):
        raise ValueError("the head does not have this size")
    return flat.msg if tuple(shape) == flat.msg.head else W.rehead(flat.msg, tuple(shape))


class Centres:
    def __init__(self, prec):
        self.prec = prec

    def __getitem__(self, inds):
        a = np.asarray(inds)
        if not W.h.symbolic:
            return NORM.ppf((a.astype(float) + 0.5) / (1 << self.prec))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = unknown("centre", [self.prec] + vals([a[i]]))
        return OArr.of(out)


def bbans(prior, likelihood, posterior):
    def push(message, data):
        message, latent = posterior(data).pop(message)
        (message,) = likelihood(latent).push(message, data)
        (message,) = prior.push(message, latent)
        return (message,)

    def pop(message):
        message, latent = prior.pop(message)
        message, data = likelihood(latent).pop(message)
        (message,) = posterior(data).push(message, latent)
        return message, data
    return Codec(push, pop)


class Norm:
    """the normal distribution function: an unknown function; its arguments are recorded"""

    def cdf(self, x, loc=0, scale=1):
        x, loc, scale = (np.asarray(a) for a in (x, loc, scale))
        shape = np.broadcast_shapes(x.shape, loc.shape, scale.shape)
        X, Lo, Sc = (np.broadcast_to(a, shape) for a in (x, loc, scale))
        if not W.h.symbolic:
            out = NORM.cdf(X, Lo, Sc)
            W.cdf = (X, Lo, Sc, out.copy())
            return out
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = unknown("cdf", vals([X[i], Lo[i], Sc[i]]))
        W.cdf = (X, Lo, Sc, out.copy())
        return OArr.of(out)


def buckets(probs, prec):
    W.pmf = probs
    return ("buckets", [prec] + vals(probs), np.asarray(probs).shape[-1])


codecs = mod("craystack.codecs", norm=Norm(), _cumulative_buckets_from_probs=buckets, _cdf_from_cumulative_buckets=lambda b: b, _cdf_to_enc_statfun=lambda b: b, _ppf_from_cumulative_buckets=lambda b: b, NonUniform=nonuniform)
bb = mod("craystack.bb_ans", BBANS=bbans)
mod("craystack", codecs=codecs, bb_ans=bb, Codec=Codec, Uniform=uniform, DiagGaussian_GaussianBins=gauss, random_message=random_message, flatten=Flat, unflatten=unflatten, substack=substack, std_gaussian_centres=Centres, NonUniform=nonuniform)


class Any_:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        return Any_()

    def __call__(self, *a, **k):
        return Any_()


LOG = {"dir": None, "kv": []}
imp = mod("improved_diffusion")
imp.gaussian_diffusion = mod("improved_diffusion.gaussian_diffusion", GaussianDiffusion=Any_)
imp.dist_util = mod("improved_diffusion.dist_util")
imp.logger = mod("improved_diffusion.logger", KVWriter=object, log=lambda *a: None, get_dir=lambda: LOG["dir"], logkvs=lambda d: LOG["kv"].append(d), dumpkvs=lambda: None)
imp.respace = mod("improved_diffusion.respace", SpacedDiffusion=object)
imp.train_util = mod("improved_diffusion.train_util", TrainLoop=object)
hyd = mod("hydra", main=lambda **k: (lambda f: f))
hyd.utils = mod("hydra.utils", instantiate=lambda *a, **k: None, to_absolute_path=lambda p: p)
hyd.core = mod("hydra.core")
hyd.core.hydra_config = mod("hydra.core.hydra_config", HydraConfig=Any_)


class Cfg(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k) from None

    def __setattr__(self, k, v):
        self[k] = v


class OmegaConf:
    register_new_resolver = staticmethod(lambda *a, **k: None)

    @staticmethod
    def select(cfg, key):
        for k in key.split("."):
            cfg = None if cfg is None else cfg.get(k)
        return cfg

    @staticmethod
    def update(cfg, key, v, **k):
        *p, last = key.split(".")
        for q in p:
            cfg = cfg[q]
        cfg[last] = v


mod("omegaconf", DictConfig=Cfg, OmegaConf=OmegaConf)
pl = mod("plotly")
pl.graph_objs = mod("plotly.graph_objs", Figure=object, Scatter=object)
mod("wandb", log=lambda *a: None)

BB = os.path.join(REPO, "projects", "bits_back_diffusion")
sys.path.insert(0, BB)
import bits_back_diffusion.codec as M  # noqa: E402
import bits_back_diffusion.script_util as SU  # noqa: E402
import encode as EN  # noqa: E402

ROOT = tempfile.mkdtemp(prefix="p34-")
PID = os.getpid()
atexit.register(lambda: os.getpid() == PID and shutil.rmtree(ROOT, ignore_errors=True))
NP, TORCH = np, torch


def zeros(shape, dtype=float, **k):
    if W is not None and W.h.symbolic and np.dtype(dtype).kind in "iu":
        a = np.empty(shape, dtype=object)
        a[...] = 0
        return OArr.of(a)
    return np.zeros(shape, dtype, **k)


def linspace(a, b, n=50, **k):
    if isinstance(a, (Num, OArr)) or isinstance(b, (Num, OArr)):
        return OArr.of([a + (b - a) * i / (n - 1) for i in range(n)])
    return np.linspace(a, b, n, **k)


def allclose(a, b, **k):
    if W.h.symbolic:
        c = E.eq(val(a), val(b))
        return T.S.path.branch(c) if is_sym(c) else bool(c)
    return np.allclose(a, b)


class Stacked:
    def __init__(self, xs):
        self.xs = xs

    def mean(self, **k):
        return None

    std = min = max = mean


def world(h, shape, head=None):
    global W
    W = World(h, shape, head)
    p = NpProxy(zeros=zeros, linspace=linspace, allclose=allclose, seterr=lambda **k: None, stack=Stacked)
    M.np = EN.np = p
    EN.plot_evolution = lambda *a, **k: None
    EN.dist = types.SimpleNamespace(get_world_size=lambda: 1, get_rank=lambda: 0, barrier=lambda: None)
    return W


class Model(M.BaseHLVModel):
    """arbitrary Gaussian parameters, a function of latent, step and data"""

    def __init__(self, steps):
        super().__init__(steps)

    def params(self, tag, key):
        out = []
        for what in ("mean", "stdd"):
            a = np.empty(W.shape, dtype=object)
            for n, i in enumerate(np.ndindex(*W.shape)):
                if W.h.symbolic:
                    a[i] = unknown("%s_%s_%d" % (tag, what, n), key)
                else:  # some function that tells its arguments apart
                    s = sum((k + 1.5) ** 2 * 0.17 * float(v) for k, v in enumerate(key)) + 0.3 * n + len(tag)
                    a[i] = math.sin(s) if what == "mean" else 0.3 + abs(math.cos(s * 1.3))
            out.append(OArr.of(a) if W.h.symbolic else a.astype(float))
        return M.GaussianParams(*out)

    def infer_fn(self, data):
        return self.params("infer", vals(data))

    def generate_fn(self, latent, step, data=None):
        W.h.claim("the model is asked only about existing steps", 0 <= step < self.steps)
        return self.params("generate", [step, 0 if data is None else 1] + vals(latent) + ([] if data is None else vals(data)))


def codec(steps, shape, prec=1, **k):
    return M.BitsBackCodec(Model(steps), tuple(shape), latent_prec=k.pop("latent_prec", 6), prior_prec=k.pop("prior_prec", 2), obs_prec=k.pop("obs_prec", 8), data_prec=prec, **k)


def batch(h, i, shape, prec):
    return oarr(h.tensor("x%d" % i, shape, torch.int64, lo=0, hi=(1 << prec) - 1))


def beq(h, a, b):
    a, b = vals(a), vals(b)
    return len(a) == len(b) and E.band(*[E.eq(val(x), val(y)) for x, y in zip(a, b)])


def lossless(steps, shape, n, prec=1, track=False):
    def body(h):
        w = world(h, shape)
        c = codec(steps, shape, prec, track=track)
        m0 = c.message
        xs = [batch(h, i, shape, prec) for i in range(n)]
        msgs = [m0]
        for i, x in enumerate(xs):
            m = c.encode(x)
            h.claim("the codec holds the message it returns", m is c.message)
            h.claim("data_count counts the encoded batches", c.data_count == i + 1)
            msgs.append(m)
        for i in reversed(range(n)):
            m, y = c.decode()
            h.claim("decoding returns the batches, last first", y.shape == tuple(shape) and beq(h, y, xs[i]))
            h.claim("decoding restores the message from before", origin(m) is origin(msgs[i]) and c.message is m)
            h.claim("data_count counts down", c.data_count == i)
    return body


def interleaved(steps, shape):
    def body(h):
        world(h, shape)
        c = codec(steps, shape)
        x0, x1, x2 = [batch(h, i, shape, 1) for i in range(3)]
        c.encode(x0)
        m1 = c.message
        c.encode(x1)
        _, y1 = c.decode()
        h.claim("the message is restored between", origin(c.message) is origin(m1))
        c.encode(x2)
        _, y2 = c.decode()
        _, y0 = c.decode()
        for y, x in ((y1, x1), (y2, x2), (y0, x0)):
            h.claim("every batch comes back", beq(h, y, x))
    return body


def spec_rates(h, c, w, m0, m):
    n = c.data_count * int(np.prod(w.shape))
    s = c.statistics()
    return s, n


def stats(steps, shape, n):
    def body(h):
        w = world(h, shape)
        c = codec(steps, shape, 1, track=True)
        m0, least, pops, pushes = c.message, None, {}, {}
        dims = int(np.prod(shape))
        init = m0.nbytes
        for i in range(n):
            x = batch(h, i, shape, 1)
            before = c.message
            m = c.encode(x)
            if i == 0:  # the lowest point: everything popped, nothing pushed yet
                low = m
                while low.kind == "push" and low is not m0:
                    low = low.parent
                least = low
            s = c.statistics()
            cnt = (i + 1) * dims
            h.claim("samples", s.samples == (i + 1) * shape[0])
            for nm, got, want in (("rate_total", s.rate_total, m.nbytes), ("rate_effective", s.rate_effective, m.nbytes - init), ("rate_used", s.rate_used, m.nbytes - init + (init - least.nbytes))):
                h.claim(nm + " is bits per dimension", E.eq(val(got), val(8 * want / cnt)) if h.symbolic else abs(got - 8 * want / cnt) < 1e-9)
            # per-step accounting, recomputed from the structure of the message
            chain, node = [], m
            while node is not before and node.kind in ("push", "tail"):
                chain.append(node)
                node = node.parent
            chain = chain[::-1]
            for nd in chain:
                d = nd.nbytes - nd.parent.nbytes if nd.kind == "push" else nd.parent.nbytes - nd.nbytes
                tgt = pushes if nd.kind == "push" else pops
                tgt.setdefault(i, []).append(d)
            h.claim("every batch pops and pushes every step", len(pops.get(i, [])) == steps and len(pushes.get(i, [])) == steps + 1)
            if len(pops.get(i, [])) == steps and len(pushes.get(i, [])) == steps + 1:
                for k in range(steps + 1):
                    # pops run from the top step to step 1; pushes: data (step 0), then step 1 to the top
                    wp = sum(pops[j][steps - k] for j in range(i + 1)) if k else 0
                    wq = sum(pushes[j][k] for j in range(i + 1))
                    for nm, arr, want in (("pop", s.rate_effective_pop, wp), ("push", s.rate_effective_push, wq)):
                        want = 8 * want / cnt
                        h.claim("bits %sped at every step" % nm if nm == "pop" else "bits pushed at every step", E.eq(val(arr[k]), val(want)) if h.symbolic else abs(float(arr[k]) - want) < 1e-9)
    return body


def restored(steps, shape, where):
    """saving the state and loading it into a fresh codec continues as if nothing happened"""
    def body(h):
        w = world(h, shape)
        a = codec(steps, shape, 1, track=True)
        xs = [batch(h, i, shape, 1) for i in range(3)]
        for i in range(where):
            a.encode(xs[i])
        st = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in a.state_dict().items()}
        b = codec(steps, shape, 1, track=True)
        b.load_state_dict(st)
        for i in range(where, 2):
            a.encode(xs[i])
            b.encode(xs[i])
        sa, sb = a.statistics(), b.statistics()
        for f in sa._fields:
            h.claim("the restored codec reports the same " + f, beq(h, vals([getattr(sa, f)]), vals([getattr(sb, f)])))
        h.claim("and holds the same message", origin(a.message) is origin(b.message))
        for i in reversed(range(2)):
            _, y = b.decode()
            h.claim("the restored codec decodes every batch", y.shape == tuple(shape) and beq(h, y, xs[i]))
            h.claim("and counts down", b.data_count == i)
    return body


def rejects(h):
    shape = (1, 1, 1, 2)
    world(h, shape)
    c = codec(1, shape, 2)
    m0 = c.message
    x = oarr(h.tensor("x", shape, torch.int64, lo=-5, hi=9))
    v = vals(x)
    try:
        c.encode(x)
        ok = True
    except ValueError:
        ok = False
    inside = E.band(*[E.band(E.le(0, a), E.le(a, 3)) for a in v])
    h.claim("data outside the alphabet is rejected, data inside accepted", inside if ok else E.bnot(inside))
    if not ok:
        h.claim("a rejected batch changes nothing", c.message is m0 and c.data_count == 0)


def rejects_shape(h):
    shape = (1, 2, 1, 1)
    world(h, shape)
    c = codec(1, shape, 1)
    m0 = c.message
    for j, bad in enumerate(((2, 1, 1, 1), (1, 1, 1, 1), (1, 2, 1), (1, 2, 1, 2))):
        try:
            c.encode(batch(h, j, bad, 1))
            h.claim("a batch of another shape is rejected", False)
        except ValueError:
            h.claim("a rejected batch changes nothing", c.message is m0 and c.data_count == 0)
    for bad in ((2,), (1, 2, 1), (1, 1, 1, 1, 1)):
        try:
            codec(1, bad)
            h.claim("a data shape that is not four-dimensional is rejected", False)
        except ValueError:
            h.claim("a rejected shape", True)


def quantise(prec, lo, hi):
    def body(h):
        w = world(h, (1, 1, 1, 1))
        c = codec(1, (1, 1, 1, 1), prec, data_min=lo, data_max=hi)
        N = (1 << prec) - 1
        x = oarr(h.tensor("d", (1, 1, 1, 1), torch.float64, lo=lo, hi=hi))
        q = c.quantize(x)
        v, xv = vals(q)[0], vals(x)[0]
        pos = (val(xv) - E.to_frac(lo)) * N / E.to_frac(hi - lo)
        half = E.to_frac(0.5)
        if h.symbolic:
            h.claim("quantised data is in the alphabet", E.band(E.le(0, v), E.le(v, N)))
            h.claim("and the nearest level", E.band(E.le(E.sub(v, pos), half), E.le(E.sub(pos, v), half)))
        else:
            h.claim("quantised data is in the alphabet", 0 <= v <= N and np.asarray(q).dtype.kind in "iu")
            h.claim("and the nearest level", abs(v - float(pos)) <= 0.5 + 1e-9)
        # the model sees the value whose quantisation is the datum
        k = oarr(h.tensor("k", (1, 1, 1, 1), torch.int64, lo=0, hi=N))
        seen = []
        c.model.infer_fn = lambda d: seen.append(d) or Model(1).params("infer", vals(d))
        c.posterior(k)
        back = c.quantize(seen[0])
        h.claim("the model is conditioned on the dequantised data", beq(h, back, k))
        kv, sv = val(vals(k)[0]), vals(seen[0])[0]
        h.claim("levels are spread evenly over the data range", h.close(_t(h, [sv]), _t(h, [(E.R(kv) if is_sym(kv) else kv) * E.to_frac(hi - lo) / N + E.to_frac(lo)])))
    return body


def _t(h, xs):
    if h.symbolic:
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = x
        return T.SymTensor.from_elems(a, torch.float64)
    return torch.tensor([float(x) for x in xs], dtype=torch.float64)


def bins(prec, shape, fixed=None, vec=False):
    """observation model: probabilities of the intervals around the data levels, open at both ends"""
    def body(h):
        w = world(h, shape)
        mean = oarr(h.tensor("mean", shape, torch.float64, lo=-4, hi=4))
        stdd = oarr(h.tensor("stdd", shape, torch.float64, lo=0.125, hi=4))
        if fixed:
            lo, hi = fixed
        else:
            lo = oarr(h.tensor("lo", shape[-1:] if vec else (), torch.float64, lo=-4, hi=4))
            span = oarr(h.tensor("span", shape[-1:] if vec else (), torch.float64, lo=0.25, hi=4))
            if not vec:
                lo, span = lo[()], span[()]
            hi = lo + span
        n = 1 << prec
        with _disable_current_modes():
            c = M.diag_gaussian_unif_bins(mean, stdd, lo, hi, 8, prec)
        X, Lo, Sc, cdf = w.cdf
        pmf = np.asarray(w.pmf)
        h.claim("one probability per level", pmf.shape == tuple(shape) + (n,))
        if pmf.shape != tuple(shape) + (n,) or X.shape[-1] not in (n + 1, n - 1):
            h.claim("one distribution value per interval end", X.shape[-1] in (n + 1, n - 1))
            return
        off = 0 if X.shape[-1] == n + 1 else 1
        for i in np.ndindex(*shape):
            ends = [0] + [cdf[i + (k - off,)] for k in range(1, n)] + [1]
            for k in range(n):
                want = ends[k + 1] - ends[k] if isinstance(ends[k + 1], Num) else (ends[k + 1] - ends[k] if not isinstance(ends[k], Num) else 1 - ends[k])
                h.claim("the probability of a level is that of its interval; the first and last are open", h.close(_t(h, [val(pmf[i + (k,)])]), _t(h, [val(want)])))
            for k in range(1, n):
                j = i + (k - off,)
                a, b = (lo[i[-1:]], hi[i[-1:]]) if vec else (lo, hi)
                edge = a + (b - a) * (2 * k - 1) / (2 * (n - 1))
                x, l, s = X[j], Lo[j], Sc[j]
                if w.same(vals([l]), vals([mean[i]])) and w.same(vals([s]), vals([stdd[i]])):
                    h.claim("intervals are bounded half way between neighbouring levels", h.close(_t(h, [val(x)]), _t(h, [val(edge)]), 1e-6))
                else:
                    h.claim("intervals are bounded half way between neighbouring levels", h.close(_t(h, [val((x - l) * stdd[i])]), _t(h, [val((edge - mean[i]) * s)]), 1e-6))
    return body


def observation(h):
    """the likelihood codec uses the model's parameters at step 0, floored, on the configured alphabet"""
    shape = (1, 1, 1, 2)
    w = world(h, shape)
    c = codec(2, shape, 2, clip_stdd=0.5)
    lat = [M.DiscrLatent(w.ints("i", shape, 0, 3), M.GaussianParams(w.reals("pm", shape, lo=-2, hi=2), w.reals("ps", shape, lo=0, hi=2))) for _ in range(2)]
    asked = []
    g = c.model.generate_fn
    c.model.generate_fn = lambda latent, step, data=None: asked.append((latent, step, data)) or g(latent, step, data)
    c.likelihood(lat)
    h.claim("the model is asked once, for step 0, without data", len(asked) == 1 and asked[0][1] == 0 and asked[0][2] is None)
    ce = Centres(2)[lat[0].inds]
    for j in range(2):
        want = vals(lat[0].params.mean)[j] + vals(ce)[j] * vals(lat[0].params.stdd)[j]
        h.claim("at the latent of step 0", h.close(_t(h, [vals(asked[0][0])[j]]), _t(h, [want])))
    p = g(asked[0][0], 0)
    X, Lo, Sc, _ = w.cdf
    for j in range(2):
        i = (0, 0, 0, j, 1)
        h.claim("mean of the observation", h.close(_t(h, [val(Lo[i])]), _t(h, [vals(p.mean)[j]])))
        h.claim("standard deviation, floored", h.close(_t(h, [val(Sc[i])]), _t(h, [E.maximum(val(vals(p.stdd)[j]), E.to_frac(0.5))])))


class Diffusion:
    """stand-in diffusion: arbitrary statistics, a function of the arguments"""

    def __init__(self, h, n, shape):
        self.h, self.num_timesteps, self.shape, self.calls = h, n, shape, []

    def out(self, tag, x, t):
        s = self.shape
        m = self.h.tensor(tag + "_m", s, torch.float64, lo=-4, hi=4)
        v = self.h.tensor(tag + "_v", s, torch.float64, lo=0.0625, hi=4)
        lv = self.h.tensor(tag + "_lv", s, torch.float64, lo=-2, hi=2)
        self.calls.append((tag, x, t, (m, v, lv)))
        return m, v, lv

    def q_mean_variance(self, x_start, t):
        return self.out("q", [x_start], t)

    def q_posterior_mean_variance(self, x_start, x_t, t):
        return self.out("qp", [x_start, x_t], t)

    def p_mean_variance(self, model, x, t, clip_denoised=True, denoised_fn=None, model_kwargs=None):
        m, v, lv = self.out("p", [x, model, clip_denoised], t)
        return {"mean": m, "variance": v, "log_variance": lv, "pred_xstart": m}


NET = torch.nn.Linear(1, 1)


def diffusion_model(kind, uselog, clip):
    def body(h):
        shape, steps = (2, 1, 1, 1), 4
        world(h, shape)
        d = Diffusion(h, steps, shape)
        with _disable_current_modes():
            m = M.DiffusionModel(NET, d, use_log_variance=uselog, clip_denoised=clip)
        x = h.tensor("x", shape, torch.float64, lo=-1, hi=1)
        z = h.tensor("z", shape, torch.float64, lo=-1, hi=1)
        step = h.pyint("step", 0, steps - 1)
        h.claim("one latent per diffusion step", m.steps == steps)

        def from_numpy(a):
            if isinstance(a, OArr):
                e = np.empty(a.shape, dtype=object)
                for i in np.ndindex(*a.shape):
                    e[i] = val(a[i])
                return T.SymTensor.from_elems(e, torch.float64)
            return torch.from_numpy(a)
        M.torch = NpProxyT(from_numpy=from_numpy)
        keep = T.SymTensor.numpy
        T.SymTensor.numpy = lambda self, force=False: oarr(self)
        try:
            if kind == "infer":
                r = m.infer_fn(oarr(x))
            elif kind == "prior":
                r = m.generate_fn(oarr(z), step)
            else:
                r = m.generate_fn(oarr(z), step, oarr(x))
        finally:
            M.torch = TORCH
            T.SymTensor.numpy = keep
        h.claim("one question to the diffusion", len(d.calls) == 1)
        tag, xs, t, (mu, v, lv) = d.calls[0]
        h.claim("of the right kind", tag == {"infer": "q", "prior": "p", "post": "qp"}[kind])
        if tag != {"infer": "q", "prior": "p", "post": "qp"}[kind]:
            return
        h.claim("for this step, for every sample", [int(a) for a in t.reshape(-1)] == [steps - 1 if kind == "infer" else step] * 2)
        if kind == "infer":
            h.claim("about the data", h.close(xs[0], x))
        elif kind == "prior":
            h.claim("about the latent", h.close(xs[0], z))
            h.claim("with the model and clipping option", xs[1] is NET and xs[2] == clip)
        else:
            h.claim("about the data", h.close(xs[0], x))
            h.claim("about the latent", h.close(xs[1], z))
        h.claim("mean", h.close(_t(h, vals(r.mean)), mu.reshape(-1)))
        sd = torch.exp(0.5 * lv) if uselog else torch.sqrt(v)
        h.claim("standard deviation", h.close(_t(h, vals(r.stdd)), sd.reshape(-1)))
    return body


class NpProxyT:
    def __init__(self, **over):
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(TORCH, n)


# ----------------------------------------------------------------- the encoding script under crashes
class Crash(Exception):
    pass


class Tens:
    def __init__(self, a):
        self.a = a

    def numpy(self):
        return self.a


class Run:
    """files, data and crash schedule around encode.main"""

    def __init__(self, h, steps, shape, n, save, prec=1, track=False):
        self.h, self.steps, self.shape, self.n, self.save, self.prec, self.track = h, steps, shape, n, save, prec, track
        self.dir = tempfile.mkdtemp(dir=ROOT)
        self.files = {}
        self.data = [oarr(h.tensor("d%d" % i, shape, torch.float64, lo=-1, hi=1)) for i in range(n + 1)]
        self.at, self.limit = 0, None
        self.codecs = []

    def tick(self):
        self.at += 1
        if self.limit is not None and self.at == self.limit:
            raise Crash

    def loader(self):
        for d in self.data:
            self.tick()
            yield Tens(d), {}

    def savez(self, path, **kw):
        self.tick()
        pathlib.Path(path).touch()
        self.files[str(path)] = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in kw.items()}
        self.tick()

    def load(self, path, **k):
        return {k: (v.copy() if hasattr(v, "copy") else np.asarray(v) if isinstance(v, int) else v) for k, v in self.files[str(path)].items()}

    def main(self, limit, check=True):
        self.at, self.limit = 0, limit
        M.np.__dict__.update(savez=self.savez, load=self.load)
        LOG["dir"], LOG["kv"] = self.dir, []
        cfg = Cfg(codec="codec", data=Cfg(val="val"), evaluator=Cfg(num_samples=self.n * self.shape[0], clip_denoised=True, model_path="m"), save_interval=self.save, check=check)

        def instantiate(what, **k):
            if what == "codec":
                c = codec(self.steps, self.shape, self.prec, track=self.track)
                self.codecs.append(c)
                return c
            return self.loader()
        hyd.utils.instantiate = instantiate
        EN.setup = lambda cfg, **k: (None, None, self.loader())
        EN.update_checkpoint = SU.update_checkpoint
        EN.main(cfg)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def crash(steps, n, save, track, times=1):
    def body(h):
        shape = (1, 1, 1, 1)
        w = world(h, shape)
        r = Run(h, steps, shape, n, save, track=track)
        try:
            for t in range(times):
                limit = h.pyint("crash%d" % t, 1, 4 * n + 6)
                try:
                    r.main(limit)
                except Crash:
                    h.claim("crashed", True)
            r.main(None)
            want = [None] * n
            c0 = r.codecs[-1]
            for i in range(n):
                want[i] = c0.quantize(r.data[i])
            got = {int(pathlib.Path(k).stem[5:]): v["batch"] for k, v in r.files.items() if pathlib.Path(k).name.startswith("batch")}
            h.claim("every batch is decoded exactly once", sorted(got) == list(range(n)))
            for i in range(n):
                if i in got:
                    h.claim("to the data that went in", beq(h, got[i], want[i]))
            h.claim("nothing is left undecoded", int(c0.data_count) == 0)
            h.claim("and the message is the initial one", origin(c0.message).kind == "init")
        finally:
            r.close()
    return body


def resume_rates(steps, n, save):
    """a restarted encoding ends with the same message and the same reported rates as an uninterrupted one with the same initial message"""
    def body(h):
        shape = (1, 1, 1, 1)
        w = world(h, shape)
        r = Run(h, steps, shape, n, save, track=False)
        q = Run(h, steps, shape, n, save, track=False)
        q.data = r.data
        try:
            limit = h.pyint("crash", 1, 3 * n + 2)
            try:
                r.main(limit, check=False)
            except Crash:
                pass
            r.main(None, check=False)
            last = r.codecs[-1]
            m = origin(last.message)
            while m.parent is not None:
                m = m.parent
            # the uninterrupted run starts from the same random message
            keep = sys.modules["craystack"].random_message
            M.cs.random_message = lambda *a: W.rehead(origin(m), (1,))
            try:
                q.main(None, check=False)
            finally:
                M.cs.random_message = keep
            a, b = q.codecs[-1], last
            h.claim("same message", origin(a.message) is origin(b.message))
            sa, sb = a.statistics(), b.statistics()
            for f in ("samples", "rate_total", "rate_used", "rate_effective"):
                h.claim("same " + f, beq(h, vals([getattr(sa, f)]), vals([getattr(sb, f)])))
        finally:
            r.close()
            q.close()
    return body


def latest(prefix, suffix, names):
    """the latest of the checkpoints in the directory is chosen, whatever the listing order"""
    def body(h):
        d = tempfile.mkdtemp(dir=ROOT)
        try:
            for nm in names:
                pathlib.Path(d, nm).touch()
            order = []
            for i in range(len(names)):
                order.append(h.pyint("o%d" % i, 0, len(names) - 1))
                h.assume(len(set(order)) == len(order))
            real = pathlib.Path.glob

            def glob(self, pat, **k):
                xs = sorted(real(self, pat))
                idx = [i for i in order if i < len(xs)]
                return iter([xs[i] for i in idx])
            LOG["dir"] = d
            cfg = Cfg(evaluator=Cfg(model_path=None), ck=None)
            key = h.pyint("key", 0, 1)
            key = ["evaluator.model_path", "ck"][key]
            OmegaConf.update(cfg, key, d if h.pybool("explicit") else None)
            pathlib.Path.glob = glob
            try:
                SU.update_checkpoint(cfg, key, prefix=prefix, suffix=suffix)
            finally:
                pathlib.Path.glob = real
            h.claim("the checkpoint with the most steps", str(OmegaConf.select(cfg, key)) == str(pathlib.Path(d, names[0])))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return body


def instances(tier):
    deep = tier != "quick"
    out = []
    for s, sh, n, p in [(1, (1, 1, 1, 1), 2, 2), (2, (1, 1, 1, 1), 2, 1), (2, (1, 2, 1, 1), 1, 1), (3, (1, 1, 1, 1), 1, 1), (3, (2, 1, 1, 1), 1, 1)] + ([(3, (1, 1, 1, 2), 2, 1), (4, (1, 1, 1, 1), 2, 1), (2, (1, 1, 2, 2), 1, 2)] if deep else []):
        out.append({"name": "lossless/s%d-%s-n%d-p%d" % (s, "x".join(map(str, sh)), n, p), "group": "lossless", "body": lossless(s, sh, n, p, track=(s + n) % 2 == 0), "validate": 2, "max_paths": 4000, "budget": 300})
    out.append({"name": "lossless/interleaved", "group": "lossless", "body": interleaved(2, (1, 1, 1, 1)), "validate": 2, "max_paths": 4000, "budget": 200})
    for s, sh, n in [(1, (2, 1, 1, 1), 2), (2, (1, 1, 1, 1), 2), (3, (1, 1, 1, 2), 1)]:
        out.append({"name": "statistics/s%d-n%d" % (s, n), "group": "statistics", "body": stats(s, sh, n), "validate": 2, "max_paths": 4000, "budget": 200})
    for s, sh, k in [(1, (1, 1, 1, 1), 1), (2, (1, 2, 1, 1), 1), (1, (1, 1, 1, 1), 2), (2, (1, 1, 1, 1), 0)]:
        out.append({"name": "restored/s%d-%d" % (s, k), "group": "restored", "body": restored(s, sh, k), "validate": 2, "max_paths": 4000, "budget": 200})
    out.append({"name": "rejects/values", "group": "rejects", "body": rejects, "validate": 2})
    out.append({"name": "rejects/shape", "group": "rejects", "body": rejects_shape, "validate": 2})
    for p, lo, hi in [(1, -1.0, 1.0), (2, -1.0, 1.0), (8, -1.0, 1.0), (8, 0.0, 1.0), (5, -2.0, 6.0)] + ([(p, -1.0, 1.0) for p in range(3, 8)] if deep else []):
        out.append({"name": "quantise/p%d-%g-%g" % (p, lo, hi), "group": "quantise", "body": quantise(p, lo, hi), "validate": 2})
    for p, sh, f in [(1, (1, 1, 1, 1), None), (2, (1, 1, 1, 1), None), (1, (1, 2, 1, 1), (-1.0, 1.0)), (3, (1, 1, 1, 1), (-1.0, 1.0)), (2, (1, 1, 1, 1), (0.0, 1.0))]:
        out.append({"name": "bins/p%d-%s%s" % (p, "x".join(map(str, sh)), "-%g-%g" % f if f else ""), "group": "bins", "body": bins(p, sh, f), "validate": 2, "tol": 1e-6})
    for p, sh in [(2, (1, 3)), (3, (2, 2))]:
        out.append({"name": "bins/p%d-%s-per-dimension" % (p, "x".join(map(str, sh))), "group": "bins", "body": bins(p, sh, vec=True), "validate": 2, "tol": 1e-6})
    out.append({"name": "observation", "body": observation, "validate": 2})
    for kind in ("infer", "prior", "post"):
        for lg in (False, True):
            out.append({"name": "model/%s-%s" % (kind, "log" if lg else "var"), "group": "model", "body": diffusion_model(kind, lg, lg), "validate": 2})
    for s, n, sv, tr in [(1, 3, 1, False), (1, 3, 2, False), (2, 2, 1, False), (1, 2, 100, True)] + ([(1, 4, 2, False), (1, 4, 3, True)] if deep else []):
        out.append({"name": "crash/s%d-n%d-i%d" % (s, n, sv), "group": "crash", "body": crash(s, n, sv, tr), "validate": 2, "max_paths": 20000, "budget": 400})
    out.append({"name": "crash/twice", "group": "crash", "body": crash(1, 2, 1, False, 2), "validate": 2, "max_paths": 20000, "budget": 400})
    out.append({"name": "crash/rates", "group": "crash", "body": resume_rates(1, 3, 1), "validate": 2, "max_paths": 20000, "budget": 400})
    out.append({"name": "latest/encode", "group": "latest", "body": latest("encode-ckpt", "npz", ["encode-ckpt000120.npz", "encode-ckpt000099.npz", "encode-ckpt000008.npz", "zdecode-ckpt000200.npz"]), "validate": 2, "max_paths": 5000})
    out.append({"name": "latest/decode", "group": "latest", "body": latest("decode-ckpt", "npz", ["decode-ckpt-00008.npz", "decode-ckpt-00064.npz", "decode-ckpt-00100.npz"]), "validate": 2, "max_paths": 5000})
    out.append({"name": "latest/ema", "group": "latest", "body": latest("ema", "pt", ["ema_0.9999_200000.pt", "ema_0.9999_150000.pt", "ema_0.9999_000000.pt", "model300000.pt"]), "validate": 2, "max_paths": 5000})
    return out
