"""P19: FID, SwAV-FID, KID, DISTS accumulation and pickle size."""
import contextlib
import pickle
import sys

import torch
import torch.nn as nn

import neuralcompression.metrics as ncm
from neuralcompression.metrics import pickle_size_of

BOUNDS = "every image value (uint8 or [0,1] float), every history of up to 4 updates with real/compressed chosen freely and an optional reset in between, batches 1..2; KID: every subset/kernel parameter; DISTS: every score, every image range (accepting exactly [0,1]); pickle size: objects of every byte length 0..300 (solver-forked classes 0..40)"
OUTSIDE = "the feature networks and the distance formulas of torch-fidelity / DISTS (third party, replaced by recording stand-ins)"
ASSUMPTIONS = ["feature networks are stand-ins"]
FID = sys.modules["neuralcompression.metrics._fid"]
KID = sys.modules["neuralcompression.metrics._kid"]
SWAV = sys.modules["neuralcompression.metrics._fid_swav"]
DST = sys.modules["neuralcompression.metrics._dists"]


@contextlib.contextmanager
def patched(**kw):
    old = []
    for k, v in kw.items():
        mod, name = k.split("__", 1)
        m = {"FID": FID, "KID": KID, "SWAV": SWAV, "DST": DST}[mod]
        old.append((m, name, getattr(m, name)))
        setattr(m, name, v)
    try:
        yield
    finally:
        for m, n, v in old:
            setattr(m, n, v)


class Backbone(nn.Module):
    """two features per image"""

    def __init__(self, *a, **kw):
        super().__init__()
        self.kw, self.seen = kw, []

    def forward(self, x):
        self.seen.append(x)
        x = x.to(torch.float64)
        f = torch.stack([x.sum(dim=(1, 2, 3)), 2 * x[:, 0, 0, 0] + 1], 1)
        return f


def history(h, m, n, mk, feat):
    """drive a metric through an arbitrary history; returns the feature rows it should hold"""
    want = {True: [], False: []}
    for k in range(n):
        r = h.pybool("real%d" % k)
        x = mk(k)
        m.update(x, r)
        want[r].append(feat(x))
        if k == 1 and h.pybool("reset"):
            m.reset()
            want = {True: [], False: []}
    return want


def feats(x):
    x = x.to(torch.float64)
    return torch.stack([x.sum(dim=(1, 2, 3)), 2 * x[:, 0, 0, 0] + 1], 1)


def fid(swav, normalize):
    def body(h):
        got = {}

        def stats(f):
            return ("stats", f)

        def metric(a, b, verbose):
            got["ab"] = (a, b)
            return {"frechet_inception_distance": 2.5}
        M = "SWAV" if swav else "FID"
        with patched(**{M + "__fid_features_to_statistics": stats, M + "__fid_statistics_to_metric": metric, M + ("__NoTrainSwAV" if swav else "__NoTrainInceptionV3"): Backbone}):
            if swav:
                m = ncm.FrechetInceptionDistanceSwAV(normalize=normalize)
            else:
                m = ncm.FrechetInceptionDistance(normalize=normalize) if normalize else ncm.FrechetInceptionDistance()
            if swav or not normalize:
                mk = lambda k: h.tensor("x%d" % k, (1 + k % 2, 3, 1, 1), dtype=torch.uint8)  # noqa: E731
            else:
                mk = lambda k: h.tensor("x%d" % k, (1 + k % 2, 3, 1, 1), lo=0, hi=1)  # noqa: E731

            def f(x):
                if swav:
                    y = x.float() / 255.0
                    return feats(y)
                return feats(torch.floor(x * 255)) if normalize else feats(x)
            want = history(h, m, 4, mk, f)
            if not want[True] or not want[False]:
                return
            v = m.compute()
        a, b = got["ab"]
        h.claim("the distance is what the library computes", abs(float(v) - 2.5) < 1e-9)
        ok = a[0] == "stats" and b[0] == "stats"
        h.claim("distance between the statistics of real and compressed features", ok)
        h.claim("real features: all and only the real images since the last reset", h.close(a[1], torch.cat(want[True]), tol=1e-5))
        h.claim("compressed features: all and only the compressed images since the last reset", h.close(b[1], torch.cat(want[False]), tol=1e-5))
        h.claim("double precision statistics", a[1].dtype == torch.float64 and b[1].dtype == torch.float64)
    return body


def swav_norm(h):
    with patched(SWAV__NoTrainSwAV=Backbone):
        m = ncm.FrechetInceptionDistanceSwAV()
        x = h.tensor("x", (2, 3, 1, 1), dtype=torch.uint8)
        m.update(x, True)
        y = x.to(torch.float64) / 255
        mean, std = torch.tensor([0.485, 0.456, 0.406]).reshape(1, 3, 1, 1).double(), torch.tensor([0.229, 0.224, 0.225]).reshape(1, 3, 1, 1).double()
        d = m.feature_extractor.seen[0].to(torch.float64) - (y - mean) / std
        h.claim("images are brought to [0,1] and normalised by the ImageNet statistics (to 2%)", h.all_((d <= 0.02) & (d >= -0.02)))


def fid_args(h):
    f = h.pyint("feature", 60, 70)
    with patched(FID__NoTrainInceptionV3=Backbone):
        for v in (f, 192, 768, 2048):
            try:
                m = ncm.FrechetInceptionDistance(feature=v)
                ok = True
                h.claim("the requested feature layer is used", m.inception.kw.get("features_list") == [str(v)])
            except ValueError:
                ok = False
            h.claim("only the documented feature layers are accepted", ok == (v in (64, 192, 768, 2048)))


def kid(normalize):
    def body(h):
        got = {}
        pr = dict(subsets=h.pyint("subsets", 1, 2), subset_size=h.pyint("size", 1, 2), degree=h.pyint("degree", 2, 3), coef=0.5, gamma=0.25)

        def metric(a, b, **kw):
            got["ab"], got["kw"] = (a, b), kw
            return {"kernel_inception_distance_mean": 1.5, "kernel_inception_distance_std": 0.5}
        with patched(KID__kid_features_to_metric=metric, KID__NoTrainInceptionV3=Backbone):
            m = ncm.KernelInceptionDistance(normalize=normalize, **pr)
            mk = (lambda k: h.tensor("x%d" % k, (1 + k % 2, 3, 1, 1), lo=0, hi=1)) if normalize else (lambda k: h.tensor("x%d" % k, (1 + k % 2, 3, 1, 1), dtype=torch.uint8))
            want = history(h, m, 3, mk, lambda x: feats(torch.floor(x * 255)) if normalize else feats(x))
            if not want[True] or not want[False]:
                return
            v = m.compute()
        a, b = got["ab"]
        h.claim("mean and deviation are returned", abs(float(v[0]) - 1.5) < 1e-9 and abs(float(v[1]) - 0.5) < 1e-9)
        h.claim("real features: all and only the real images since the last reset", h.close(a, torch.cat(want[True]), tol=1e-5))
        h.claim("compressed features: all and only the compressed images since the last reset", h.close(b, torch.cat(want[False]), tol=1e-5))
        k = got["kw"]
        h.claim("subset parameters are used", k.get("kid_subsets") == pr["subsets"] and k.get("kid_subset_size") == pr["subset_size"])
        h.claim("kernel parameters are used", k.get("kid_kernel_poly_degree") == pr["degree"] and k.get("kid_kernel_poly_gamma") == pr["gamma"] and k.get("kid_kernel_poly_coef0") == pr["coef"])
    return body


def dists(reduction):
    def body(h):
        seen = []

        class Net(nn.Module):
            def forward(self, a, b):
                seen.append((a, b))
                return (a - 3 * b).sum(dim=(1, 2, 3))
        with patched(DST__NoTrainDists=Net):
            m = ncm.DeepImageStructureTextureSimilarity(reduction=reduction)
            tot, n = 0, 0
            for k in range(3):
                B = 1 + k % 2
                x = h.tensor("x%d" % k, (B, 3, 1, 1), lo=0, hi=1)
                y = h.tensor("y%d" % k, (B, 3, 1, 1), lo=0, hi=1)
                m.update(x, y)
                tot, n = tot + (x - 3 * y).sum(), n + B
                if k == 1 and h.pybool("reset"):
                    m.reset()
                    tot, n = 0, 0
            h.claim("sum or mean over all images since the last reset", h.close(m.compute(), tot / n if reduction == "mean" else tot, tol=1e-4))
    return body


def dists_range(h):
    class Net(nn.Module):
        def forward(self, a, b):
            return (a - b).sum(dim=(1, 2, 3))
    with patched(DST__NoTrainDists=Net):
        m = ncm.DeepImageStructureTextureSimilarity()
        x = h.tensor("x", (1, 3, 1, 1), lo=-2, hi=2)
        y = h.tensor("y", (1, 3, 1, 1), lo=-2, hi=2)
        inside = h.all_((x >= 0) & (x <= 1) & (y >= 0) & (y <= 1))
        try:
            m.update(x, y)
            h.claim("accepted only if both images lie in [0,1]", inside)
        except ValueError:
            import z3
            h.claim("rejected only if an image leaves [0,1]", z3.Not(inside) if h.symbolic else not inside)
        for bad in (torch.zeros(3, 1, 1), torch.zeros(1, 1, 2, 2)):
            try:
                m.update(bad, bad)
                h.claim("other layouts rejected", False)
            except ValueError:
                h.claim("other layouts rejected", True)
        try:
            ncm.DeepImageStructureTextureSimilarity(reduction="none")
            h.claim("unknown reduction rejected", False)
        except ValueError:
            h.claim("unknown reduction rejected", True)


def psize(h):
    n = h.pyint("n", 0, 40)
    for obj in (bytes(n), [bytes(n), (3, 4)], {"strings": [[b"x" * n]], "shape": (n, n)}):
        h.claim("size of the pickle", pickle_size_of(obj) == len(pickle.dumps(obj)))


def instances(tier):
    out = []
    for sw, nm in ((False, False), (False, True), (True, False)):
        out.append(dict(name="fid/%s/%s" % ("swav" if sw else "inception", nm), body=fid(sw, nm), budget=200, max_paths=80, tol=1e-4))
    out.append(dict(name="fid/swav-normalisation", body=swav_norm, budget=60))
    out.append(dict(name="fid/arguments", body=fid_args, max_paths=20, budget=60))
    for nm in (False, True):
        out.append(dict(name="kid/%s" % nm, group="kid", body=kid(nm), budget=200, max_paths=200, tol=1e-4))
    for r in ("mean", "sum"):
        out.append(dict(name="dists/" + r, group="dists", body=dists(r), budget=100, tol=1e-4))
    out.append(dict(name="dists/range", body=dists_range, budget=100, max_paths=100))
    out.append(dict(name="pickle-size", body=psize, max_paths=60, budget=60))
    return out
