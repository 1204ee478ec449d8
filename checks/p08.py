"""P08: soft rounding and its inverse."""
import math

import torch

import neuralcompression.functional as ncF

BOUNDS = "every real x in [-4, 4]; sharpness alpha in {0.0005 (below threshold), 0.01, 0.5, 1, 2, 4, 7.5, 12}; vectors of 1..2 elements"
OUTSIDE = "float rounding (at very large alpha the inverse is ill-conditioned); larger |x| (the function is proved to commute with integer shifts)"
ASSUMPTIONS = ["tanh/atanh axiomatised: range, monotonicity, odd symmetry, mutual inverses, point enclosures"]


def anchors(h, a):
    h.anchor("tanh", a / 2, -a / 2, 0.4901 * a, -0.4901 * a)
    t = 0.98005 * math.tanh(a / 2)
    h.anchor("atanh", t, -t)


def forward(alpha):
    def body(h):
        anchors(h, alpha)
        x = h.tensor("x", (2,), lo=-4, hi=4)
        y = ncF.soft_round(x, alpha)
        fl = torch.floor(x)
        if alpha < 1e-3:
            h.claim("tiny alpha is the identity", h.eq(y, x))
            return
        h.claim("stays in the unit cell", h.le(fl - 1e-5, y))
        h.claim("stays in the unit cell ", h.le(y, fl + 1 + 1e-5))
        h.claim("nondecreasing", h.implies(x[0] <= x[1], h.le(y[0], y[1] + 1e-5)))
        h.claim("moves towards the nearest integer (low half)", h.implies(x[0] - fl[0] < 0.5, h.le(y[0], x[0] + 1e-4)) if alpha >= 4 else True)
        h.claim("commutes with integer shifts", h.close(ncF.soft_round(x + 1, alpha), y + 1))
        h.claim("odd about half-integers", h.implies((x[0] > fl[0]), h.close(ncF.soft_round(2 * fl[0] + 1 - x[0], alpha), 2 * fl[0] + 1 - y[0])))
    return body


def fixed_points(alpha):
    def body(h):
        k = h.tensor("k", (1,), dtype=torch.int32, lo=-4, hi=4)
        x = k.to(torch.float32)
        h.claim("integers are fixed", h.close(ncF.soft_round(x, alpha), x))
        h.claim("half-integers are fixed", h.close(ncF.soft_round(x + 0.5, alpha), x + 0.5))
    return body


def inverse(alpha):
    def body(h):
        anchors(h, alpha)
        x = h.tensor("x", (1,), lo=-4, hi=4)
        fl = torch.floor(x)
        if alpha >= 1e-3:
            # at the cell borders the float round trip may fall into the neighbouring cell
            h.assume(h.all_((x - fl > 0.01) & (x - fl < 0.99)))
        h.claim("inverse(soft_round(x)) = x", h.close(ncF.soft_round_inverse(ncF.soft_round(x, alpha), alpha), x, tol=2e-3))
    return body


def inverse2(alpha):
    def body(h):
        anchors(h, alpha)
        y = h.tensor("y", (1,), lo=-4, hi=4)
        fl = torch.floor(y)
        h.assume(h.all_((y - fl > 0.01) & (y - fl < 0.99)))
        h.claim("soft_round(inverse(y)) = y", h.close(ncF.soft_round(ncF.soft_round_inverse(y, alpha), alpha), y, tol=2e-3))
        x = ncF.soft_round_inverse(y, alpha)
        h.claim("inverse stays in the unit cell", h.le(fl - 1e-5, x))
        h.claim("inverse stays in the unit cell ", h.le(x, fl + 1 + 1e-5))
    return body


def cond_mean(alpha):
    def body(h):
        z = h.tensor("z", (1,), lo=-4, hi=4)
        h.claim("conditional mean = inverse(z - 1/2) + 1/2", h.close(ncF.soft_round_conditional_mean(z, alpha), ncF.soft_round_inverse(z - 0.5, alpha) + 0.5))
        m = ncF.soft_round_conditional_mean(z, alpha)
        h.claim("conditional mean within half a step of z", h.le((m - z).abs(), torch.full((1,), 0.50001)))
    return body


AL = (0.0005, 0.01, 0.5, 1.0, 2.0, 4.0, 7.5, 12.0)


def instances(tier):
    out = []
    for a in AL:
        out.append(dict(name="forward/%s" % a, group="forward/%s" % (a < 1e-3), body=forward(a), budget=150, timeout=40))
        out.append(dict(name="inverse/%s" % a, group="inverse/%s" % (a < 1e-3), body=inverse(a), budget=100, timeout=40, tol=2e-3))
        out.append(dict(name="inverse2/%s" % a, group="inverse2", body=inverse2(a), budget=100, timeout=40, tol=2e-3))
        out.append(dict(name="conditional-mean/%s" % a, group="mean", body=cond_mean(a), budget=100, timeout=40))
        if a >= 1e-3:
            out.append(dict(name="fixed-points/%s" % a, group="fixed", body=fixed_points(a), budget=60, timeout=30))
    return out
