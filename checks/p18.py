"""P18: patch-based FID/KID update."""
import torch

from neuralcompression.metrics import update_patch_fid

BOUNDS = "contents: every pixel value of [0,1] images (exact 255-scale rounding), batches 1..2, 3 channels, patch sizes 1..3, images up to 5x5; counts: every batch 1..4, H, W in [1, 40] for patch sizes 4, 7, 8 (thorough: [1,700] for 256); all combinations of metrics"
OUTSIDE = "float rounding of 255*x (decided by P02)"
ASSUMPTIONS = ["the FID/KID objects are recording stand-ins"]


class Rec:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def update(self, imgs, real):
        self.log.append((self.name, imgs, real))


def grid(x, p, oy, ox):
    """the non-overlapping p x p patches of x[:, :, oy:, ox:], image by image, row by row"""
    out = []
    for b in range(x.shape[0]):
        for i in range((x.shape[2] - oy) // p):
            for j in range((x.shape[3] - ox) // p):
                out.append(x[b, :, oy + i * p:oy + (i + 1) * p, ox + j * p:ox + (j + 1) * p])
    return out


def contents(B, H, W, p, which):
    def body(h):
        x = h.tensor("x", (B, 3, H, W), lo=0, hi=1)
        y = h.tensor("y", (B, 3, H, W), lo=0, hi=1)
        log = []
        kw = {k: Rec(log, k) for k in which}
        n = update_patch_fid(x, y, patch_size=p, **kw)
        grids = [0]
        if H >= 1.5 * p and W >= 1.5 * p:
            grids.append(p // 2)
        want_n = sum(len(grid(x, p, g, g)) for g in grids)
        h.claim("returns the number of patches", n == want_n)
        for k in which:
            for real, src in ((True, x), (False, y)):
                got = [t for nm, t, r in log if nm == k and r is real]
                h.claim("patches are bytes", all(t.dtype == torch.uint8 for t in got))
                got = [t[q] for t in got for q in range(t.shape[0])]
                want = [q for g in grids for q in grid(src, p, g, g)]
                h.claim("every metric sees each patch of both grids once", len(got) == len(want))
                if len(got) != len(want):
                    return
                h.claim("patches are the image crops on the 255 scale, real and compressed kept apart",
                        h.eq(torch.stack(got), torch.stack([torch.round(255 * q).to(torch.uint8) for q in want])))
    return body


def none(h):
    try:
        update_patch_fid(torch.zeros(1, 3, 4, 4), torch.zeros(1, 3, 4, 4), patch_size=2)
        h.claim("no metric at all is rejected", False)
    except ValueError:
        h.claim("no metric at all is rejected", True)


def counts(p):
    def body(h):
        N, H, W = h.dim("N"), h.dim("H"), h.dim("W")
        log = []
        x, y = h.image(N, 3, H, W), h.image(N, 3, H, W)
        import neuralcompression.functional as ncF
        real = ncF.image_to_255_scale
        ncF.image_to_255_scale = lambda t, dtype=None: t.to(dtype)  # range check reads values
        try:
            n = update_patch_fid(x, y, fid_metric=Rec(log, "f"), patch_size=p)
        finally:
            ncF.image_to_255_scale = real
        a = N * (H // p) * (W // p)
        s = p // 2
        b = N * ((H - s) // p) * ((W - s) // p)
        if 2 * H >= 3 * p and 2 * W >= 3 * p:
            h.claim_eq("patch count with the shifted grid", n, a + b)
            h.claim("four updates", len(log) == 4)
        else:
            h.claim_eq("patch count without the shifted grid", n, a)
            h.claim("two updates", len(log) == 2)
    return body


def instances(tier):
    out = []
    F_, S_, K_ = "fid_metric", "fid_swav_metric", "kid_metric"
    for B, H, W, p, w in ((1, 2, 2, 2, (F_,)), (1, 3, 3, 2, (F_, S_, K_)), (2, 3, 4, 2, (K_,)), (1, 2, 5, 2, (F_,)), (1, 5, 5, 2, (S_,)), (1, 5, 4, 3, (F_, K_)), (1, 5, 5, 3, (F_,)), (2, 2, 2, 1, (K_, S_)), (1, 3, 2, 1, (F_,))):
        out.append(dict(name="contents/%dx%dx%d/p%d/%s" % (B, H, W, p, "+".join(w)), group="contents/p%d" % p, body=contents(B, H, W, p, w), budget=150, timeout=40, max_paths=40))
    out.append(dict(name="no-metric", body=none))
    for p in (4, 7, 8):
        out.append(dict(name="counts/%d" % p, group="counts", kind="shape", body=counts(p), domain={"N": (1, 4), "H": (p, 40), "W": (p, 40)}, budget=150))
    if tier != "quick":
        out.append(dict(name="counts/256", group="counts", kind="shape", body=counts(256), domain={"N": (1, 4), "H": (256, 1200), "W": (256, 1200)}, budget=800))
    return out
