"""P10: PSNR."""
import math

import torch

from neuralcompression.metrics import calc_psnr, calc_psnr_numpy
from vlib.symnp import arr, back

BOUNDS = "every pair of images with real values in [0, data_range] (1..4 pixels), all 8-bit images (numpy uint8 and int), data ranges 1, 255, 2; torch and numpy versions"
OUTSIDE = "identical images (infinite PSNR); float rounding"
ASSUMPTIONS = ["log axiomatised (monotone, tangents, point enclosures)", "numpy arithmetic is interpreted by the same element semantics as torch (uint8 wraps)"]


def want(x, y, dr):
    mse = ((x - y) ** 2).mean()
    return 20 * math.log10(dr) - 10 * torch.log(mse) / math.log(10)


def torch_body(shape, dr, default):
    def body(h):
        x = h.tensor("x", shape, lo=0, hi=dr)
        y = h.tensor("y", shape, lo=0, hi=dr)
        h.assume(((x - y) ** 2).mean() >= dr * dr / 1e6)
        p = calc_psnr(x, y) if default else calc_psnr(x, y, data_range=dr)
        h.claim("torch: 10 log10(range^2 / mse)", h.close(p, want(x, y, dr), tol=1e-3))
        h.claim("torch: symmetric", h.close(calc_psnr(y, x, data_range=dr), p, tol=1e-3))
        h.claim("torch: scalar", tuple(p.shape) == ())
    return body


def order(h):
    x, y, z = (h.tensor(n, (2,), lo=0, hi=255) for n in "xyz")
    a, b = ((x - y) ** 2).mean(), ((x - z) ** 2).mean()
    h.assume((a >= 0.01) & (b >= 0.01))
    h.claim("larger error, lower PSNR", h.implies(a <= b, h.le(calc_psnr(x, z), calc_psnr(x, y) + 1e-4)))


def numpy_float(shape, dr, default):
    def body(h):
        x = h.tensor("x", shape, lo=0, hi=dr)
        y = h.tensor("y", shape, lo=0, hi=dr)
        h.assume(((x - y) ** 2).mean() >= dr * dr / 1e6)
        p = back(calc_psnr_numpy(arr(x), arr(y)) if default else calc_psnr_numpy(arr(x), arr(y), data_range=dr))
        h.claim("numpy: 10 log10(range^2 / mse)", h.close(p, want(x, y, dr), tol=1e-3))
    return body


def numpy_u8(n, dt):
    def body(h):
        x = h.tensor("x", (n,), dtype=dt, lo=0, hi=255)
        y = h.tensor("y", (n,), dtype=dt, lo=0, hi=255)
        xf, yf = x.to(torch.float64), y.to(torch.float64)
        h.assume(((xf - yf) ** 2).mean() >= 0.1)
        p = back(calc_psnr_numpy(arr(x), arr(y)))
        h.claim("numpy: 8-bit images give the same PSNR", h.close(p, want(xf, yf, 255.0), tol=1e-3))
    return body


def instances(tier):
    out = []
    for s, dr, d in (((1,), 255.0, True), ((2,), 1.0, False), ((1, 1, 2, 1), 255.0, True), ((2,), 2.0, False), ((1, 1, 2, 2), 1.0, False)):
        out.append(dict(name="torch/%s/%s" % ("x".join(map(str, s)), dr), group="torch", body=torch_body(s, dr, d), budget=120, timeout=30, tol=1e-3))
        out.append(dict(name="numpy/%s/%s" % ("x".join(map(str, s)), dr), group="numpy", body=numpy_float(s, dr, d), budget=120, timeout=30, tol=1e-3))
    out.append(dict(name="order", body=order, budget=120))
    for n in (1, 2):
        for dt in (torch.uint8, torch.int32):
            out.append(dict(name="numpy-int/%d/%s" % (n, str(dt)[6:]), group="numpy-%s" % dt, body=numpy_u8(n, dt), budget=120, timeout=30, tol=1e-3))
    return out
