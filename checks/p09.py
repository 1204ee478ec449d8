"""P09: information content."""
import math

import torch

import neuralcompression.functional as ncF

BOUNDS = "every probability in [1e-6, 1] (reals), tensors up to 2x2x2, contiguous and permuted layouts, bases 2, e, 10, 256 and every real base in [1.01, 300] or [0.01, 0.99], the three reductions"
OUTSIDE = "probability 0; float rounding (replay tolerance 2e-4)"
ASSUMPTIONS = ["log axiomatised (monotone, tangent bounds, point enclosures)"]


def body_for(shape, base, perm, default=False):
    def body(h):
        p = h.tensor("p", shape, lo=1e-6, hi=1)
        if perm:
            p = p.permute(*perm)
        kw = {} if default else {"base": base}
        bits = -torch.log(p) / math.log(base)
        none = ncF.information_content(p, reduction="none", **kw)
        tot = ncF.information_content(p, **kw)
        h.claim("none: -log_base p per element", h.close(none, bits))
        h.claim("sum: total over all elements", h.close(tot, bits.sum()))
        h.claim("sum is a scalar", tuple(tot.shape) == ())
        h.claim("explicit sum = default", h.close(ncF.information_content(p, reduction="sum", **kw), tot))
        be = ncF.information_content(p, reduction="batch_el", **kw)
        h.claim("per batch element: one value each", tuple(be.shape) == (p.shape[0],))
        h.claim("per batch element: sum over its own elements", h.close(be, bits.reshape(p.shape[0], -1).sum(-1)))
        h.claim("never negative", h.le(torch.zeros(()), none))
    return body


def any_base(lo, hi, red):
    def body(h):
        b = h.scalar("base", lo=lo, hi=hi)
        p = h.tensor("p", (2, 2), dtype=torch.float64, lo=0.05, hi=1)
        got = ncF.information_content(p, reduction=red, base=b)
        nat = -torch.log(p)
        nat = nat if red == "none" else nat.sum() if red == "sum" else nat.sum(-1)
        lb = torch.log(torch.as_tensor(b, dtype=torch.float64))
        h.claim("any base: value times log(base) is minus the natural log-likelihood", h.close(got * lb, nat))
    return body


def mono(h):
    p = h.tensor("p", (2,), lo=1e-6, hi=1)
    n = ncF.information_content(p, reduction="none")
    h.claim("rarer symbols cost at least as much", h.implies(p[0] <= p[1], h.le(n[1], n[0])))
    one = ncF.information_content(torch.ones(3))
    h.claim("certain symbols are free", h.close(one, torch.zeros(())))
    half = ncF.information_content(torch.full((4,), 0.5))
    h.claim("four fair bits cost four bits", h.close(half, torch.full((), 4.0)))


def bad(h):
    p = h.tensor("p", (2,), lo=0.1, hi=1)
    try:
        ncF.information_content(p, reduction="mean")
        h.claim("unknown reduction rejected", False)
    except ValueError:
        h.claim("unknown reduction rejected", True)


def instances(tier):
    out = []
    for shape, base, perm, d in (((3,), 2.0, None, True), ((2, 2), 2.0, None, False), ((2, 1, 2), math.e, None, False), ((2, 2, 1), 10.0, None, False), ((2, 2), 256.0, None, False),
                                 ((1, 3), 2.0, (1, 0), False), ((2, 1, 2), 2.0, (2, 0, 1), False), ((2, 2), 2.0, (1, 0), True), ((2, 2, 2), 2.0, (0, 2, 1), True)):
        out.append(dict(name="value/%s/%.3g/%s" % ("x".join(map(str, shape)), base, perm), group="value/%s" % bool(perm), body=body_for(shape, base, perm, d), budget=120, timeout=40))
    out += [dict(name="any-base/%s..%s/%s" % (lo, hi, red), group="any-base", body=any_base(lo, hi, red), budget=60, timeout=20) for lo, hi in ((1.01, 300.0), (0.01, 0.99)) for red in ("none", "sum", "batch_el")]
    out += [dict(name="monotone", body=mono), dict(name="bad-reduction", body=bad)]
    return out
