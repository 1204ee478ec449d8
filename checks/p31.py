"""P31: JAX arithmetic coder: decode(encode(message)) == message for every symbolic CDF; length; buffer overrun."""
import os
import sys

from vlib import elem as E
from vlib import minijax as mj
from vlib.harness import REPO

BOUNDS = ("every message of 1..3 symbols over alphabets of 2..4 symbols, every 16-bit CDF within the stated probability range (all integer tables, symbolic), batches of 1..2 messages of equal and different length, fixed and state-dependent CDFs, "
          "buffers of 1 byte per message and more")
OUTSIDE = "longer messages; symbols of probability zero; jax itself (not installed here)"
ASSUMPTIONS = ["jax is replaced by an integer-exact stand-in (vlib/minijax.py) with JAX's documented semantics; the repository's coder runs unchanged on it",
               "truncating the float64 quotient of the decoder equals the integer quotient (proved by a rounding argument for the operand range, which is checked on every path)"]

undo = mj.install()
sys.path.insert(0, os.path.join(REPO, "projects", "jax_entropy_coders"))
import jax_arithmetic_coder as jac  # noqa: E402
undo()

TOP = 1 << 16


def table(h, name, k, minp, maxp=TOP):
    """a symbolic CDF of k symbols, each of probability in [minp, maxp]/65536"""
    cs = [0]
    for i in range(k - 1):
        cs.append(h.z3int("%s%d" % (name, i), (i + 1) * minp, TOP - (k - 1 - i) * minp))
    cs.append(TOP)
    for a, b in zip(cs, cs[1:]):
        h.assume(E.band(E.le(minp, b - a), E.le(b - a, maxp)))
    return cs


def fixed(s, st):
    return st[0][s], st[0][s + 1], st


def inv_fixed(v, st):
    s = mj.argmin(v >= st[0]) - 1
    return st[0][s], st[0][s + 1], s, st


def same(h, got, want):
    return all(int(g) == w for g, w in zip(got, want)) and len(got) == len(want)


def round_trip(k, n, minp, maxp=TOP, oversize=1.5, extra=None):
    def body(h):
        cs = table(h, "c", k, minp, maxp)
        msg = [h.pyint("m%d" % i, 0, k - 1) for i in range(n)]
        st = (mj.array([cs], dtype="uint32"),)
        m = mj.array([msg], dtype="uint8")
        data = jac.encode(m, fixed, st, buffer_oversize=oversize)
        h.claim("one byte string per message", len(data) == 1 and isinstance(data[0], bytes))
        out = jac.decode(data, mj.array([n]), inv_fixed, st)
        h.claim("decoding returns the message", len(out) == 1 and same(h, out[0], msg))
        if extra is not None:
            extra(h, cs, msg, data[0])
    return body


def length(h, cs, msg, data):
    """8*(bytes-1) emitted bits at most: information content plus 3 bits (interval truncation, terminating bits)"""
    bits = 8 * (len(data) - 1)
    if bits <= 3:
        h.claim("length is near the information content", True)
        return
    p = 1
    for s in msg:
        p = p * (cs[s + 1] - cs[s])
    h.claim("length is near the information content", E.le(p, (TOP ** len(msg)) >> (bits - 3)))


def overrun(k, minp, n, oversize):
    """a message that may not fit its buffer is either coded losslessly or rejected"""
    def body(h):
        cs = table(h, "c", k, minp)
        msg = [h.pyint("m%d" % i, 0, k - 1) for i in range(n)]
        st = (mj.array([cs], dtype="uint32"),)
        try:
            data = jac.encode(mj.array([msg], dtype="uint8"), fixed, st, buffer_oversize=oversize)
        except RuntimeError:
            h.claim("rejected or lossless", True)
            return
        out = jac.decode(data, mj.array([n]), inv_fixed, st)
        h.claim("rejected or lossless", same(h, out[0], msg))
    return body


def overrun_middle(lo, hi, plo, phi, oversize):
    """an improbable symbol in the middle of the range: its code does not repeat, so a lost byte would show"""
    def body(h):
        a = h.z3int("a", lo, hi)
        d = h.z3int("d", plo, phi)
        cs = [0, a, a + d, TOP]
        st = (mj.array([cs], dtype="uint32"),)
        try:
            data = jac.encode(mj.array([[1]], dtype="uint8"), fixed, st, buffer_oversize=oversize)
        except RuntimeError:
            h.claim("rejected or lossless", True)
            return
        out = jac.decode(data, mj.array([1]), inv_fixed, st)
        h.claim("rejected or lossless", same(h, out[0], [1]))
    return body


def batch(lens):
    """messages of a batch do not influence each other, also when their lengths (and code lengths) differ"""
    def body(h):
        n = max(lens)
        tabs = [table(h, "c%d_" % b, 2, 26000 if len(set(lens)) > 1 else 16000) for b in range(len(lens))]
        msgs = [[h.pyint("m%d_%d" % (b, i), 0, 1) for i in range(n)] for b in range(len(lens))]
        st = (mj.array(tabs, dtype="uint32"),)
        if len(set(lens)) == 1:
            data = jac.encode(mj.array(msgs, dtype="uint8"), fixed, st)
        else:  # separately coded messages, decoded together
            data = []
            for b, l in enumerate(lens):
                data += jac.encode(mj.array([msgs[b][:l]], dtype="uint8"), fixed, (mj.array([tabs[b]], dtype="uint32"),), buffer_oversize=3)
        out = jac.decode(data, mj.array(list(lens)), inv_fixed, st)
        h.claim("one message per byte string", len(out) == len(lens))
        for b, l in enumerate(lens):
            h.claim("every message of the batch is restored", same(h, out[b], msgs[b][:l]))
    return body


def adaptive(n):
    """the CDF state of encoder and decoder evolves with the coded symbols"""
    def body(h):
        t = [table(h, "a", 2, 1 << 13), table(h, "b", 2, 1 << 13)]
        msg = [h.pyint("m%d" % i, 0, 1) for i in range(n)]
        tabs = mj.array([t], dtype="uint32")

        def fwd(s, st):
            row = st[0][st[1]]
            return row[s], row[s + 1], (st[0], mj.cast(mj.wrap(s), "int64"))

        def inv(v, st):
            row = st[0][st[1]]
            s = mj.argmin(v >= row) - 1
            return row[s], row[s + 1], s, (st[0], s)

        st = (tabs, mj.array([0]))
        data = jac.encode(mj.array([msg], dtype="uint8"), fwd, st, buffer_oversize=3)
        out = jac.decode(data, mj.array([n]), inv, st)
        h.claim("state-dependent CDFs decode to the message", same(h, out[0], msg))
    return body


def instances(tier):
    out = []
    R = [(2, 1, 1, 3), (3, 1, 1 << 11, 2), (4, 1, 1 << 12, 2), (2, 2, 1 << 12, 1.5), (2, 2, 1 << 9, 4), (3, 2, 18000, 3)]
    if tier == "thorough":
        R += [(2, 2, 1, 6), (2, 3, 1 << 12, 3), (3, 2, 1 << 11, 3), (3, 3, 1 << 13, 3)]
    for k, n, p, o in R:
        out.append({"name": f"trip/k{k}-n{n}-p{p}", "group": "trip", "body": round_trip(k, n, p, TOP, o, length), "validate": 3, "max_paths": 60000, "budget": 300 if tier == "quick" else 1500})
    out.append({"name": "overrun/n1", "group": "overrun", "body": overrun(2, 1, 1, 1), "validate": 3, "max_paths": 20000, "budget": 200})
    out.append({"name": "overrun/n2", "group": "overrun", "body": overrun(2, 1 << 9, 2, 1), "validate": 3, "max_paths": 20000, "budget": 300})
    for lo, hi in ((21000, 21600), (50001, 50600)):
        for o in (1, 2, 3):
            out.append({"name": f"middle/{lo}-x{o}", "group": "overrun", "body": overrun_middle(lo, hi, 64, 300, o), "validate": 3, "max_paths": 20000, "budget": 200})
    for l in ((1, 1), (1, 2)):
        out.append({"name": "batch/%d-%d" % l, "group": "batch", "body": batch(l), "validate": 2, "max_paths": 60000, "budget": 300})
    out.append({"name": "adaptive/2", "group": "adaptive", "body": adaptive(2), "validate": 2, "max_paths": 60000, "budget": 300})
    return out
