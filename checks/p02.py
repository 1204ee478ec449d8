"""P02: conversion of unit-range images to the 255 scale."""
import torch

import neuralcompression.functional as ncF

BOUNDS = "every pixel value: IEEE float32 and float64 bit-precise (byte round trip, nearest integer, range check) and real-valued; tensors of 1..4 pixels, output dtypes uint8 / int32 / float32 / default"
OUTSIDE = "NaN pixels; half precision"
ASSUMPTIONS = ["elementwise operation: larger images repeat the same per-pixel computation"]


def roundtrip(dt, odt, shape):
    def body(h):
        k = h.tensor("k", shape, dtype=torch.uint8)
        img = k.to(dt) / 255
        y = ncF.image_to_255_scale(img, dtype=odt) if odt is not None else ncF.image_to_255_scale(img)
        want = odt or dt
        h.claim("output dtype", y.dtype == want)
        h.claim("every 8-bit image survives the round trip", h.eq(y if not y.is_floating_point() else y.to(torch.uint8), k if y.is_floating_point() else k.to(want)))
    return body


def nearest(dt, odt):
    """within the unit range: nearest integer of 255 x; outside: ValueError"""
    def body(h):
        x = h.tensor("x", (2,), dtype=dt)
        ok = ((x >= 0) & (x <= 1))
        try:
            y = ncF.image_to_255_scale(x, dtype=odt)
        except ValueError:
            h.claim("rejects only images outside [0, 1]", (~ok).any())
            return
        h.claim("images outside [0, 1] are rejected", ok.all())
        yf = y if odt is None else y.to(dt)
        h.claim("nearest integer", h.le((yf - x * 255).abs(), torch.full((2,), 0.5, dtype=dt)))
        h.claim("integral", h.eq(yf, torch.round(yf)))
        h.claim("range 0..255", h.le(torch.zeros((), dtype=dt), yf))
        h.claim("range 0..255 ", h.le(yf, torch.full((), 255, dtype=dt)))
    return body


def monotone(h):
    x = h.tensor("x", (2,), lo=0, hi=1)
    y = ncF.image_to_255_scale(x)
    h.assume(x[0] <= x[1])
    h.claim("brightness order kept", h.le(y[0], y[1]))


def exact4d(h):
    x = h.tensor("x", (1, 2, 1, 2), lo=0, hi=1)
    x0 = x.clone()
    y = ncF.image_to_255_scale(x)
    h.claim("4-D image: shape kept", tuple(y.shape) == (1, 2, 1, 2))
    h.claim("4-D image: round(255 x) per pixel", h.eq(y, torch.round(x0 * 255)))
    h.claim("input untouched", h.eq(x, x0))


def instances(tier):
    out = []
    for dt in (torch.float32, torch.float64):
        for odt in (torch.uint8, torch.int32, None):
            out.append(dict(name="byte-roundtrip/%s/%s" % (str(dt)[6:], str(odt)[6:] if odt else None), group="roundtrip", mode="fp", body=roundtrip(dt, odt, (1,)), timeout=200, budget=260, cost=3,
                            tactics=[("default", 60), ("qffp", 120), ("smt0", 60)]))
        out.append(dict(name="fp-nearest/%s" % str(dt)[6:], group="fp-nearest", mode="fp", body=nearest(dt, None), timeout=120, budget=260, tactics=[("default", 60), ("qffp", 120)]))
    out.append(dict(name="real-nearest/uint8", group="real-nearest", body=nearest(torch.float32, torch.uint8)))
    out.append(dict(name="real-nearest/float", group="real-nearest2", body=nearest(torch.float32, None)))
    out.append(dict(name="monotone", body=monotone))
    out.append(dict(name="exact-4d", body=exact4d))
    return out
