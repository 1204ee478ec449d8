"""P01: padding an image to a multiple of a factor."""
import torch
import z3

import neuralcompression.functional as ncF

BOUNDS = ("sizes: H, W symbolic in [1, 160] with factor concrete in {1,2,3,4,5,7,8,12,16,32,64}, and H, W, factor all symbolic with H, W <= 48, factor <= 12; "
          "values: every real-valued image of the listed shapes (up to 2x2x6x5), factors 1..5, modes reflect / replicate / constant / circular")
OUTSIDE = "images too small for their padding mode (reflect needs pad < size), where PyTorch itself raises; sizes above the bound"
ASSUMPTIONS = ["values are moved, never computed, so the real-number encoding of the float32 elements is exact", "PyTorch's own padding kernels are trusted (executed on element identities)"]


def size_body(factor):
    def body(h):
        H, W = h.dim("H"), h.dim("W")
        f = h.dim("f") if factor is None else factor
        x = h.image(2, 3, H, W)
        y, size = ncF.pad_image_to_factor(x, f)
        h.claim_eq("batch and channels kept", y.shape[:2], (2, 3))
        h.claim_eq("returned size is the original size", tuple(size), (H, W))
        for k, n in ((2, H), (3, W)):
            h.claim_eq("padded size is a multiple of the factor", y.shape[k] % f, 0)
            h.claim_le("padding never shrinks", n, y.shape[k])
            h.claim_le("padding is minimal", y.shape[k] + 1, n + f)
    return body


def value_body(shape, factor, mode):
    def body(h):
        x = h.tensor("x", shape)
        x0 = x.clone()
        B, C, H, W = shape
        if mode is None:
            y, size = ncF.pad_image_to_factor(x, factor)
        else:
            y, size = ncF.pad_image_to_factor(x, factor, mode=mode)
        h.claim("size returned", tuple(size) == (H, W))
        h.claim("crop recovers the image", h.eq(y[..., :H, :W], x0))
        h.claim("input untouched", h.eq(x, x0))
        Hp, Wp = -(-H // factor) * factor, -(-W // factor) * factor
        h.claim("padded shape", tuple(y.shape) == (B, C, Hp, Wp))
        if tuple(y.shape) != (B, C, Hp, Wp):
            return
        m = mode or "reflect"

        def src(i, n):
            if i < n:
                return i
            if m == "reflect":
                return 2 * (n - 1) - i
            if m == "replicate":
                return n - 1
            if m == "circular":
                return i - n
            return None
        rows = [src(i, H) for i in range(Hp)]
        cols = [src(j, W) for j in range(Wp)]
        for i in range(Hp):
            for j in range(Wp):
                if i < H and j < W:
                    continue
                want = torch.zeros(B, C) if rows[i] is None or cols[j] is None else x0[:, :, rows[i], cols[j]]
                h.claim("added pixels follow the padding mode", h.eq(y[:, :, i, j], want))
    return body


def instances(tier):
    th = tier == "thorough"
    out = []
    hi = 160 if not th else 400
    for f in (1, 2, 3, 4, 5, 7, 8, 12, 16, 32, 64) + ((6, 24, 48, 128) if th else ()):
        def where(z, f=f):
            ph = (f - z["H"] % f) % f
            pw = (f - z["W"] % f) % f
            return z3.And(ph < z["H"], pw < z["W"])
        out.append(dict(name="size/f%d" % f, group="size", kind="shape", body=size_body(f), domain={"H": (1, hi), "W": (1, hi)}, where=where, budget=100))

    def wheref(z):
        ph = (z["f"] - z["H"] % z["f"]) % z["f"]
        pw = (z["f"] - z["W"] % z["f"]) % z["f"]
        return z3.And(ph < z["H"], pw < z["W"])
    out.append(dict(name="size/symbolic-factor", group="size-f", kind="shape", body=size_body(None), domain={"H": (1, 48), "W": (1, 48), "f": (1, 12)}, where=wheref, budget=200, timeout=60, cost=5))
    combos = [((1, 1, 3, 3), 2, None), ((2, 2, 5, 4), 4, None), ((1, 2, 6, 5), 3, None), ((1, 1, 4, 4), 4, None), ((1, 1, 4, 3), 4, None), ((1, 2, 3, 4), 4, None), ((1, 1, 2, 3), 1, None),
              ((1, 1, 3, 5), 5, "reflect"), ((1, 1, 1, 2), 4, "replicate"), ((1, 2, 2, 5), 3, "constant"), ((1, 1, 5, 3), 4, "circular")]
    if th:
        combos += [((1, 1, h_, w_), f, None) for h_ in range(2, 9) for w_ in range(2, 9) for f in (2, 3, 4, 5, 6, 8) if -h_ % f < h_ and -w_ % f < w_]
    for s, f, m in combos:
        out.append(dict(name="values/%s/f%d/%s" % ("x".join(map(str, s)), f, m), group="values", body=value_body(s, f, m), budget=60))
    return out
