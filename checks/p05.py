"""P05: lower_bound."""
import torch

import neuralcompression.functional as ncF

BOUNDS = "every x, bound and upstream gradient: real-valued and IEEE float32/float64 bit-precise, shapes (), (3,), (2,2); scalar, full-shape and broadcast (1,) tensor bounds and Python-number bounds; the three gradient modes"
OUTSIDE = "larger tensors (the operation is elementwise); infinities and NaN"
ASSUMPTIONS = []


def body_for(shape, bshape, gradient, dtype, pyb=None):
    def body(h):
        x = h.tensor("x", shape, dtype=dtype, grad=True)
        if pyb is not None:
            b = pyb
            bt = torch.tensor(pyb, dtype=dtype)
        else:
            b = bt = h.tensor("b", bshape, dtype=dtype)
        kw = {} if gradient is None else {"gradient": gradient}
        y = ncF.lower_bound(x, b, **kw)
        xd = x.detach()
        h.claim("output = max(x, bound)", h.eq(y.detach(), torch.where(xd >= bt, xd, bt.expand(shape) if bt.dim() else bt)))
        h.claim("dtype kept", y.dtype == dtype)
        g = h.tensor("g", shape, dtype=dtype)
        (gx,) = torch.autograd.grad(y, x, g)
        z = torch.zeros((), dtype=dtype)
        mode = gradient or "identity_if_towards"
        if mode == "identity":
            h.claim("identity gradient", h.eq(gx, g))
        elif mode == "identity_if_towards":
            h.claim("gradient passes exactly where x is not below the bound or the step moves x up", h.eq(gx, torch.where((xd >= bt) | (g < 0), g, z)))
        else:
            h.claim("disconnected: zero below the bound", h.eq(torch.where(xd < bt, gx, z), torch.zeros(shape, dtype=dtype)))
            h.claim("disconnected: identity above the bound", h.eq(torch.where(xd > bt, gx, z), torch.where(xd > bt, g, z)))
    return body


def bad_mode(h):
    x = h.tensor("x", (2,))
    try:
        ncF.lower_bound(x, torch.tensor(0.0), gradient="identity_if_toward")
    except ValueError:
        h.claim("unknown gradient mode rejected", True)
        return
    h.claim("unknown gradient mode rejected", False)


def instances(tier):
    out = []
    for gr in (None, "identity_if_towards", "identity", "disconnected"):
        for shape, bshape in (((3,), ()), ((2, 2), (2, 2)), ((3,), (1,)), ((), ())):
            out.append(dict(name="real/%s/%s-%s" % (gr, shape, bshape), group="real/%s" % gr, body=body_for(shape, bshape, gr, torch.float32)))
        for dt in (torch.float32, torch.float64):
            out.append(dict(name="fp/%s/%s" % (gr, str(dt)[6:]), group="fp/%s" % gr, mode="fp", body=body_for((2,), (), gr, dt), timeout=60))
        for pb in (0.5, -2.0, 0, 1e-9):
            out.append(dict(name="number-bound/%s/%s" % (gr, pb), group="number/%s" % gr, body=body_for((3,), (), gr, torch.float32, pyb=pb)))
    out.append(dict(name="bad-mode", body=bad_mode))
    return out
