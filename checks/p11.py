"""P11: multi-scale structural similarity."""
import torch

import neuralcompression.functional as ncF
from neuralcompression.metrics import MultiscaleStructuralSimilarity
from vlib.util import pat

BOUNDS = "values: every pair of images with pixels in [0,1] (reals), 1..2 images x 1..2 channels x up to 4x4 (window 3; 1 and 2 scales, power factors 1 and 2) and window 1; sizes: window 11, every H, W in [1,40] (1 scale), [1,60] (2), [1,100] (3), [70,100] (4), [155,180] (5); thorough: [1,400] for all"
OUTSIDE = "float rounding; the fractional default power factors (a fixed power of the proved factors); larger windows"
ASSUMPTIONS = ["PyTorch's convolution and pooling kernels are encoded by definition and validated by replay"]


def gauss(n, std):
    i = torch.arange(n, dtype=torch.float64) - n // 2
    g = torch.exp(-0.5 * (i / std) ** 2)
    g = g / g.sum()
    return g[:, None] * g[None, :]


def ssim_ref(x, y, w, L=1.0, k1=0.01, k2=0.03):
    """x, y: [H, W]; returns (mean ssim, mean contrast-structure)"""
    n = w.shape[0]
    H, W = x.shape
    s, c, m = 0, 0, 0
    c1, c2 = (k1 * L) ** 2, (k2 * L) ** 2
    for i in range(H - n + 1):
        for j in range(W - n + 1):
            a, b = x[i:i + n, j:j + n], y[i:i + n, j:j + n]
            ma, mb = (w * a).sum(), (w * b).sum()
            va, vb, cov = (w * a * a).sum() - ma * ma, (w * b * b).sum() - mb * mb, (w * a * b).sum() - ma * mb
            cs = (2 * cov + c2) / (va + vb + c2)
            s = s + (2 * ma * mb + c1) / (ma * ma + mb * mb + c1) * cs
            c = c + cs
            m += 1
    return s / m, c / m


def down(x):
    H, W = x.shape
    rows = []
    for i in range((H + 1) // 2):
        row = []
        for j in range((W + 1) // 2):
            i0, i1, j0, j1 = 2 * i, min(2 * i + 1, H - 1), 2 * j, min(2 * j + 1, W - 1)
            row.append((x[i0, j0] + x[i0, j1] + x[i1, j0] + x[i1, j1]) / 4)
        rows.append(torch.stack(row))
    return torch.stack(rows)


def ref(x, y, n, std, pf, **kw):
    w = gauss(n, std).to(x.dtype)
    out = []
    for b in range(x.shape[0]):
        tot = 0
        for c in range(x.shape[1]):
            X, Y, v = x[b, c], y[b, c], 1
            for k, p in enumerate(pf):
                if k:
                    X, Y = down(X), down(Y)
                s, cs = ssim_ref(X, Y, w, **kw)
                t = s if k == len(pf) - 1 else cs
                v = v * torch.relu(t) ** p
            tot = tot + v
        out.append(tot / x.shape[1])
    return torch.stack(out)


def value(shape, n, pf, kw, const):
    """const: pixels kept concrete (to stay within reach of nonlinear solving), the rest symbolic"""
    def body(h):
        x = h.tensor("x", shape, dtype=torch.float64, lo=0, hi=1)
        if const:
            y = pat(shape, 3, torch.float64)
        else:
            y = h.tensor("y", shape, dtype=torch.float64, lo=0, hi=1)
        got = ncF.multiscale_structural_similarity(x, y, window_size=n, power_factors=pf, reduction="none", **kw)
        k2 = {{"data_range": "L"}.get(k, k): v for k, v in kw.items() if k != "gaussian_std"}
        h.claim("value = product of contrast-structure terms and the coarsest SSIM", h.close(got, ref(x, y, n, kw.get("gaussian_std", 1.5), pf, **k2)))
        h.claim("one score per image", tuple(got.shape) == (shape[0],))
    return body


def probe(shape, n, pf, kw, pos):
    """all pixels but one fixed (irregular values): the score as a function of that pixel is the definition's"""
    def body(h):
        v = h.tensor("v", (), dtype=torch.float64, lo=0, hi=1)
        base = pat(shape, 5, torch.float64)
        m = torch.zeros(shape, dtype=torch.float64)
        m[pos] = 1
        x = base * (1 - m) + m * v
        y = pat(shape, 3, torch.float64)
        got = ncF.multiscale_structural_similarity(x, y, window_size=n, power_factors=pf, reduction="none", **kw)
        k2 = {{"data_range": "L"}.get(k, k): v for k, v in kw.items() if k != "gaussian_std"}
        h.claim("value = product of contrast-structure terms and the coarsest SSIM", h.close(got, ref(x, y, n, kw.get("gaussian_std", 1.5), pf, **k2)))
    return body


def laws(shape, n, pf):
    def body(h):
        x = h.tensor("x", shape, dtype=torch.float64, lo=0, hi=1)
        y = h.tensor("y", shape, dtype=torch.float64, lo=0, hi=1)
        f = lambda a, b, r="none": ncF.multiscale_structural_similarity(a, b, window_size=n, power_factors=pf, reduction=r)  # noqa: E731
        s = f(x, y)
        if n == 1:
            h.claim("symmetric", h.close(f(y, x), s))
        if n == 1 and len(pf) == 1 and shape[1] == 1:
            h.claim("never above 1", h.le(s, 1.0 if h.symbolic else 1.000001))
        h.claim("sum reduction", h.close(f(x, y, "sum"), s.sum()))
        h.claim("mean reduction", h.close(f(x, y, "mean"), s.mean()))
        h.claim("default reduction is the mean", h.close(ncF.multiscale_structural_similarity(x, y, window_size=n, power_factors=pf), s.mean()))
        for b in range(shape[0]):
            h.claim("every image is scored on its own", h.close(f(x[b:b + 1], y[b:b + 1]), s[b:b + 1]))
        if shape[1] > 1:
            ch = sum(f(x[:, c:c + 1], y[:, c:c + 1]) for c in range(shape[1])) / shape[1]
            h.claim("channels are averaged", h.close(ch, s))
        h.claim("inputs untouched", h.eq(x, x.clone()))
    return body


def same(shape, n, pf):
    def body(h):
        x = h.tensor("x", shape, dtype=torch.float64, lo=0, hi=1)
        h.claim("identical images score 1", h.close(ncF.multiscale_structural_similarity(x, x.clone(), window_size=n, power_factors=pf, reduction="none"), torch.ones(shape[0], dtype=torch.float64)))
    return body


def metric(sizes):
    def body(h):
        m = MultiscaleStructuralSimilarity(window_size=1, power_factors=(1.0,), k2=0.5)
        tot, n = 0, 0
        for rnd in range(2):
            for i, b in enumerate(sizes):
                x = h.tensor("x%d_%d" % (rnd, i), (b, 1, 1, 2), lo=0, hi=1)
                y = h.tensor("y%d_%d" % (rnd, i), (b, 1, 1, 2), lo=0, hi=1)
                m.update(x, y)
                tot = tot + ncF.multiscale_structural_similarity(x, y, window_size=1, power_factors=(1.0,), k2=0.5, reduction="sum")
                n += b
                h.claim("metric = mean over all images so far", h.close(m.compute(), tot / n))
                m._computed = None
            m.reset()
            tot, n = 0, 0
    return body


def options(h):
    x = h.tensor("x", (1, 1, 3, 3), dtype=torch.float64, lo=0, hi=1)
    for kw in (dict(reduction="max"), dict(window_size=2), dict(window_size=0)):
        k = dict(window_size=3, power_factors=(1.0,))
        k.update(kw)
        try:
            ncF.multiscale_structural_similarity(x, x, **k)
            h.claim("invalid options rejected", False)
        except ValueError:
            h.claim("invalid options rejected", True)


def sizes(scales):
    def body(h):
        H, W = h.dim("H"), h.dim("W")
        x, y = h.image(1, 1, H, W), h.image(1, 1, H, W)
        f = 2 ** (scales - 1)
        try:
            s = ncF.multiscale_structural_similarity(x, y, power_factors=(1.0,) * scales, reduction="none")
            h.claim_le("scored only if the coarsest scale still holds the window", 11, (H + f - 1) // f)
            h.claim_le("scored only if the coarsest scale still holds the window ", 11, (W + f - 1) // f)
            h.claim_eq("one score per image", s.shape, (1,))
        except RuntimeError as e:
            if "smaller than the window" not in str(e):
                raise
            h.claim("too small images rejected", True)
            a, b = (H + f - 1) // f, (W + f - 1) // f
            # min(a, b) <= 10
            h.claim_le("only too small images are rejected", min(a, b) if not h.symbolic else torch.sym_min(a, b), 10)
    return body


def instances(tier):
    out = []
    k = dict(data_range=2.0, k1=0.1, k2=0.2, gaussian_std=1.0)
    for shape, n, pf, kw, const in (((1, 1, 1, 1), 1, (1.0,), {}, False), ((1, 1, 2, 2), 1, (1.0, 1.0), {}, False), ((1, 1, 3, 3), 3, (1.0,), {}, False), ((1, 1, 3, 3), 3, (1.0,), k, False),
                                    ((1, 1, 3, 4), 3, (2.0,), {}, False), ((1, 2, 3, 3), 3, (1.0,), {}, False), ((1, 1, 5, 5), 3, (1.0, 2.0), {}, False), ((1, 1, 3, 3), 1, (1.0, 1.0), k, True)):
        out.append(dict(name="value/%s/w%d/%s/%s" % ("x".join(map(str, shape)), n, pf, "-".join(kw)), group="value/%d" % len(pf), body=value(shape, n, pf, kw, const), budget=120, timeout=40))
    for shape, n, pf, kw, pos in (((1, 1, 3, 3), 3, (1.0,), k, (0, 0, 0, 1)), ((1, 1, 5, 5), 5, (1.0,), k, (0, 0, 4, 2)), ((2, 1, 4, 3), 3, (2.0,), k, (1, 0, 2, 1)), ((1, 2, 5, 4), 3, (1.0,), dict(k1=0.5), (0, 1, 3, 3))):
        out.append(dict(name="probe/%s/w%d/%d" % ("x".join(map(str, shape)), n, len(pf)), group="probe", body=probe(shape, n, pf, kw, pos), budget=120, timeout=40))
    for shape, n, pf in (((2, 1, 1, 1), 1, (1.0,)), ((1, 2, 1, 2), 1, (1.0,)), ((1, 1, 2, 2), 1, (1.0, 1.0)), ((2, 1, 3, 3), 3, (1.0,))):
        out.append(dict(name="laws/%s/w%d/%d" % ("x".join(map(str, shape)), n, len(pf)), group="laws", body=laws(shape, n, pf), budget=120, timeout=30))
    for shape, n, pf in (((1, 1, 1, 2), 1, (1.0,)), ((1, 1, 3, 3), 3, (1.0,)), ((1, 2, 2, 2), 1, (1.0, 1.0))):
        out.append(dict(name="identical/%s/w%d/%d" % ("x".join(map(str, shape)), n, len(pf)), group="identical", body=same(shape, n, pf), budget=120, timeout=40))
    out += [dict(name="metric/%s" % (s,), group="metric", body=metric(s), budget=120, timeout=30) for s in ((1, 1), (2, 1), (1, 2, 1))]
    out += [dict(name="options", body=options)]
    for s, lo, hi in ((1, 1, 40), (2, 1, 60), (3, 1, 100), (4, 70, 100), (5, 155, 180)) if tier == "quick" else ((1, 1, 400), (2, 1, 400), (3, 1, 400), (4, 1, 400), (5, 1, 400)):
        out.append(dict(name="sizes/%d" % s, group="sizes", kind="shape", body=sizes(s), domain={"H": (lo, hi), "W": (lo, hi)}, budget=150 if tier == "quick" else 900))
    return out
