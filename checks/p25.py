"""P25: VCT patching: windows are the right windows, and unpatching restores the latent."""
import os
import sys

import torch

from vlib.harness import REPO
from vlib.util import pat

sys.path.insert(0, os.path.join(REPO, "projects", "torch_vct"))
from neural.patcher import Patched, Patcher  # noqa: E402

BOUNDS = ("values: every latent of 1..2 images x 1..2 channels at sizes from 2x2 to 5x7, strides 1..4, overlaps (patch - stride) 0, 2 and 4, reflect and constant padding; "
          "sizes: every H, W in [16,96] for strides 1..8 and overlaps 0, 2, 4, 8, batch 1..4")
OUTSIDE = "padding larger than the latent (PyTorch rejects reflect padding there)"
ASSUMPTIONS = []


def refl(i, n, mode):
    if 0 <= i < n:
        return i
    if mode != "reflect":
        return None
    return -i if i < 0 else 2 * (n - 1) - i


def values(shape, stride, patch, mode):
    B, C, H, W = shape
    m = (patch - stride) // 2
    nh, nw = -(-H // stride), -(-W // stride)

    def body(h):
        x = h.tensor("x", shape, lo=-8, hi=8)
        x0 = x.clone()
        p = Patcher(stride, mode)
        out = p(x, patch)
        t, n = out.tensor, out.num_patches
        h.claim("patch counts are the rounded-up quotients", tuple(n) == (nh, nw))
        h.claim("patched shape", tuple(t.shape) == (B * nh * nw, patch * patch, C))
        want = []
        for b in range(B):
            for i in range(nh):
                for j in range(nw):
                    rows = []
                    for r in range(patch):
                        for c in range(patch):
                            y, z = refl(i * stride + r - m, H, mode), refl(j * stride + c - m, W, mode)
                            rows.append(x0[b, :, y, z] if y is not None and z is not None else torch.zeros(C))
                    want.append(torch.stack(rows))
        h.claim("every patch is the window of the padded latent at its grid position", h.eq(t, torch.stack(want)))
        h.claim("latent untouched", h.eq(x, x0))
        if patch == stride:
            h.claim("unpatching and cropping restores the latent", h.eq(p.unpatch(out, crop=(H, W), channels_last=True), x0))
            h.claim("channels-second patches restore it too", h.eq(p.unpatch((t.permute(0, 2, 1), n), crop=(H, W)), x0))
            full = p.unpatch(Patched(t, n), channels_last=True)
            h.claim("without a crop the padded latent is returned", tuple(full.shape) == (B, C, nh * stride, nw * stride))
            h.claim("padded latent starts with the latent", h.eq(full[..., :H, :W], x0))
    return body


def unpatch_any(B, C, nh, nw, s):
    """unpatch on arbitrary tokens (not only on what forward produced): token r*s+c of patch (i,j) lands at (i*s+r, j*s+c)"""
    def body(h):
        t = h.tensor("t", (B * nh * nw, s * s, C), lo=-8, hi=8)
        y = Patcher(s).unpatch((t, (nh, nw)), crop=None, channels_last=True)
        h.claim("shape", tuple(y.shape) == (B, C, nh * s, nw * s))
        for b in range(B):
            for i in range(nh * s):
                for j in range(nw * s):
                    k = (b * nh + i // s) * nw + j // s
                    h.claim("each token lands at its own position", h.eq(y[b, :, i, j], t[k, (i % s) * s + j % s]))
        z = Patcher(s)(y, s)
        h.claim("patching an unpatched latent gives the tokens back", h.eq(z.tensor, t) if tuple(z.tensor.shape) == tuple(t.shape) else False)
    return body


def rejects(h):
    x = pat((1, 1, 4, 4))
    s = h.pyint("s", 1, 4)
    k = h.pyint("k", 1, 6)
    try:
        Patcher(s)(x, k)
        ok = True
    except ValueError:
        ok = False
    except RuntimeError:
        ok = None
    if ok is not None:
        h.claim("patch sizes below the stride or with an odd overlap are rejected, others accepted", ok == (k >= s and (k - s) % 2 == 0))


def sizes(stride, over, b):
    def body(h):
        H, W = h.dim("H"), h.dim("W")
        x = h.image(b, 1, H, W)
        t, n = Patcher(stride)(x, stride + over)
        h.claim_le("rows covered", H, n[0] * stride)
        h.claim_le("no spare patch row", n[0] * stride, H + stride - 1)
        h.claim_le("columns covered", W, n[1] * stride)
        h.claim_le("no spare patch column", n[1] * stride, W + stride - 1)
        h.claim_eq("one entry per patch", t.shape[0], b * n[0] * n[1])
        h.claim_eq("one token per window position", t.shape[1], (stride + over) ** 2)
        if over == 0:
            y = Patcher(stride).unpatch((t, n), crop=(H, W), channels_last=True)
            h.claim_eq("restored height", y.shape[-2], H)
            h.claim_eq("restored width", y.shape[-1], W)
            h.claim_eq("restored batch", y.shape[0], b)
    return body


def instances(tier):
    out = []
    vs = [((1, 1, 4, 4), 2, 2, "reflect"), ((1, 2, 5, 4), 2, 2, "reflect"), ((2, 2, 3, 5), 2, 4, "reflect"), ((1, 1, 5, 7), 3, 3, "reflect"), ((1, 1, 5, 7), 3, 5, "reflect"), ((2, 1, 4, 3), 1, 3, "reflect"),
          ((1, 2, 4, 6), 2, 6, "reflect"), ((1, 1, 4, 6), 4, 8, "reflect"), ((1, 2, 3, 4), 2, 4, "constant"), ((2, 1, 5, 3), 4, 4, "constant"), ((1, 3, 2, 3), 1, 1, "reflect")]
    if tier == "thorough":
        vs += [((2, 2, 8, 6), 4, 8, "reflect"), ((1, 3, 9, 10), 4, 4, "reflect"), ((2, 3, 6, 7), 3, 7, "constant"), ((3, 1, 5, 5), 5, 5, "reflect"), ((2, 2, 7, 9), 4, 6, "reflect")]
    for s, st, p, mode in vs:
        out.append({"name": f"values/{'x'.join(map(str, s))}/s{st}/p{p}/{mode}", "group": "values", "body": values(s, st, p, mode), "validate": 2})
    for a in [(1, 2, 2, 3, 2), (2, 1, 1, 2, 3), (2, 2, 2, 1, 1)]:
        out.append({"name": "unpatch/" + "x".join(map(str, a)), "group": "unpatch", "body": unpatch_any(*a), "validate": 2})
    out.append({"name": "rejects", "body": rejects, "validate": 1})
    D = {"H": (16, 96), "W": (16, 96)}
    for st, ov, b in ([(1, 2, 1), (2, 0, 2), (3, 4, 1), (4, 0, 3), (4, 4, 1), (5, 0, 1), (8, 8, 2)] if tier == "quick" else [(s, o, b) for s in range(1, 9) for o in (0, 2, 4, 8) for b in (1, 4)]):
        out.append({"name": f"sizes/s{st}/o{ov}/b{b}", "group": "sizes", "kind": "shape", "body": sizes(st, ov, b), "domain": D, "first": {"H": 13, "W": 22}})
    return out
