"""P04: dense image warping."""
import torch

import neuralcompression.functional as ncF

BOUNDS = "every image with real values in [-4, 4] of 1..2 x 1..2 x up to 3x3, symbolic flow for 2x2 images and single output pixels up to 3x3, concrete and symbolic flow fields of the same or another size, zeros/border padding, bilinear and nearest, both corner conventions"
OUTSIDE = "reflection padding and bicubic interpolation with symbolic flow; float rounding (replay tolerance 2e-4)"
ASSUMPTIONS = ["the grid-sampling kernel of PyTorch is encoded from its documented definition and validated by concrete replays"]


def interp(img, y, x, pad):
    """bilinear value of img[C,H,W] at real pixel coordinates (reference)"""
    C, H, W = img.shape
    if pad == "border":
        y = torch.clamp(y, 0, H - 1)
        x = torch.clamp(x, 0, W - 1)
    out = 0
    for i in range(H):
        for j in range(W):
            wy = torch.clamp(1 - (y - i).abs(), min=0)
            wx = torch.clamp(1 - (x - j).abs(), min=0)
            out = out + img[:, i, j] * wy * wx
    return out


def identity(shape, pad):
    def body(h):
        img = h.tensor("img", shape, lo=-4, hi=4)
        B, C, H, W = shape
        y = ncF.dense_image_warp(img, torch.zeros(B, H, W, 2), padding_mode=pad, align_corners=True)
        h.claim("zero flow with aligned corners is the identity", h.close(y, img))
    return body


def shift(h):
    """one-pixel displacement: channel 0 of the flow moves along the width, channel 1 along the height"""
    img = h.tensor("img", (1, 1, 3, 3))
    f = torch.zeros(1, 3, 3, 2)
    f[..., 0] = 1.0  # 2/(W-1)
    y = ncF.dense_image_warp(img, f, align_corners=True)
    h.claim("flow channel 0 displaces along the width", h.close(y[..., :2], img[..., 1:]))
    h.claim("border rows repeat the edge", h.close(y[..., 2], img[..., 2]))
    f = torch.zeros(1, 3, 3, 2)
    f[..., 1] = -1.0
    y = ncF.dense_image_warp(img, f, align_corners=True)
    h.claim("flow channel 1 displaces along the height", h.close(y[..., 1:, :], img[..., :2, :]))
    z = ncF.dense_image_warp(img, f, padding_mode="zeros", align_corners=True)
    h.claim("zero padding outside the image", h.close(z[..., 0, :], torch.zeros(1, 1, 3)))


def general(shape, fshape, align, pad, sym, mode="bilinear"):
    """every output pixel is the interpolated image at base grid + flow"""
    def body(h):
        B, C, H, W = shape
        img = h.tensor("img", shape, lo=-4, hi=4)
        oh, ow = fshape
        if sym:
            flow = h.tensor("flow", (B, oh, ow, 2), lo=-1, hi=1)
        else:
            flow = torch.tensor([0.25, -0.5, 0.75, 1.0, -1.25, 0.125, 0.0, -0.25]).repeat(B * oh * ow)[: B * oh * ow * 2].reshape(B, oh, ow, 2)
        kw = {}
        if pad != "border":
            kw["padding_mode"] = pad
        if align:
            kw["align_corners"] = True
        y = ncF.dense_image_warp(img, flow, **kw)
        h.claim("output has the flow's size", tuple(y.shape) == (B, C, oh, ow))
        gy, gx = torch.linspace(-1, 1, oh), torch.linspace(-1, 1, ow)
        for b in range(B):
            for i in range(oh):
                for j in range(ow):
                    vx, vy = gx[j] + flow[b, i, j, 0], gy[i] + flow[b, i, j, 1]
                    if align:
                        px, py = (vx + 1) / 2 * (W - 1), (vy + 1) / 2 * (H - 1)
                    else:
                        px, py = ((vx + 1) * W - 1) / 2, ((vy + 1) * H - 1) / 2
                    h.claim("value at the displaced location", h.close(y[b, :, i, j], interp(img[b], py, px, pad)))
        if pad == "border" and not sym:
            m, M = img.amin((2, 3), keepdim=True), img.amax((2, 3), keepdim=True)
            h.claim("stays within the image's value range", h.le(m.expand_as(y) - 1e-4, y))
            h.claim("stays within the image's value range ", h.le(y, M.expand_as(y) + 1e-4))
    return body


def linear(h):
    a, b = h.tensor("a", (1, 1, 2, 3)), h.tensor("b", (1, 1, 2, 3))
    flow = torch.tensor([0.3, -0.2, 0.9, 0.1, -1.4, 0.6]).repeat(2).reshape(1, 2, 3, 2)
    w = ncF.dense_image_warp
    h.claim("warping is additive in the image", h.close(w(a + b, flow), w(a, flow) + w(b, flow)))


def batch(h):
    img = h.tensor("img", (2, 1, 2, 2))
    flow = torch.tensor([0.3, -0.2, 0.9, 0.1, -1.4, 0.6, 0.5, 0.0, -0.3, 0.2, 0.1, 0.1, 0.4, -0.6, 0.5, 1.0]).reshape(2, 2, 2, 2)
    y = ncF.dense_image_warp(img, flow)
    for k in range(2):
        h.claim("each image uses its own flow", h.close(y[k], ncF.dense_image_warp(img[k:k + 1], flow[k:k + 1])[0]))


def errors(h):
    img = h.tensor("img", (1, 1, 2, 2))
    for fl in (torch.zeros(1, 2, 2, 2, dtype=torch.float64), torch.zeros(1, 2, 2, 3)):
        try:
            ncF.dense_image_warp(img, fl)
            h.claim("mismatched inputs rejected", False)
        except ValueError:
            h.claim("mismatched inputs rejected", True)


def nearest(h):
    img = h.tensor("img", (1, 2, 2, 2))
    y = ncF.dense_image_warp(img, torch.zeros(1, 2, 2, 2), mode="nearest", align_corners=True)
    h.claim("nearest: zero flow is the identity", h.eq(y, img))
    f = torch.zeros(1, 2, 2, 2)
    f[..., 0] = 2.0
    y = ncF.dense_image_warp(img, f, mode="nearest", align_corners=True)
    h.claim("nearest: full shift picks the right column", h.eq(y, img[..., 1:].expand(1, 2, 2, 2)))


def instances(tier):
    out = [dict(name="identity/%s/%s" % ("x".join(map(str, s)), p), group="identity", body=identity(s, p)) for s in ((1, 1, 2, 2), (2, 2, 3, 2), (1, 1, 3, 4)) for p in ("border", "zeros")]
    out += [dict(name=n, body=b) for n, b in (("shift", shift), ("linear", linear), ("batch", batch), ("errors", errors), ("nearest", nearest))]
    cfgs = [((1, 1, 2, 2), (2, 2), False, "border", False), ((1, 2, 2, 3), (3, 2), False, "border", False), ((1, 1, 3, 2), (2, 2), True, "border", False), ((1, 1, 2, 2), (2, 2), False, "zeros", False),
            ((2, 1, 2, 2), (1, 2), False, "border", False), ((1, 1, 3, 3), (3, 3), True, "zeros", False)]
    for c in cfgs:
        out.append(dict(name="value/%s-%s-%s-%s" % ("x".join(map(str, c[0])), "x".join(map(str, c[1])), "align" if c[2] else "half", c[3]), group="value/%s/%s" % (c[2], c[3]), body=general(*c), budget=150))
    for c in [((1, 1, 2, 2), (1, 1), False, "border", True), ((1, 1, 2, 2), (1, 1), True, "border", True), ((1, 1, 1, 3), (1, 1), False, "border", True), ((1, 1, 2, 2), (1, 1), False, "zeros", True)] + (
            [((1, 1, 2, 3), (1, 2), False, "border", True), ((1, 1, 3, 3), (1, 1), True, "zeros", True)] if tier == "thorough" else []):
        out.append(dict(name="symflow/%s-%s-%s-%s" % ("x".join(map(str, c[0])), "x".join(map(str, c[1])), "align" if c[2] else "half", c[3]), group="symflow", body=general(*c), budget=240, timeout=60, cost=3))
    return out
