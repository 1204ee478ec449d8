"""P32: rANS (craystack): pop undoes push for every stack; encode/decode and bits-back are lossless."""
import os
import sys

from vlib import elem as E
from vlib import minijax as mj
from vlib.harness import REPO

BOUNDS = ("stack steps: every head in [2^24, 2^32), every tail content, every CDF interval, 1..3 interleaved lanes, precision 16 (and 12); coder, appending and bits-back: every message of 1..2 symbols x 1..2 lanes and every start buffer (all heads, all tail bytes) "
          "or a fresh one, batches of 1..2, with CDF tables over 2..4 symbols fixed per instance (rare, even, dominant symbols; the step claims cover every interval)")
OUTSIDE = "appending a message with more lanes than the earlier buffer has normalised heads for; tails too small for the message (the coder documents silent failure there); longer messages (the step claims are inductive); jax itself (not installed here)"
ASSUMPTIONS = ["jax is replaced by an integer-exact stand-in (vlib/minijax.py) with JAX's documented semantics; the repository's coder runs unchanged on it", "initial tail bytes are arbitrary"]

undo = mj.install()
sys.path.insert(0, os.path.join(REPO, "projects", "jax_entropy_coders"))
import craystack as cs  # noqa: E402
from craystack import _backend as bk  # noqa: E402
undo()

TOP = 1 << 16


def message(h, lanes, cap, ptr, name="s"):
    head = [h.z3int("%shead%d" % (name, i), 1 << 24, (1 << 32) - 1) for i in range(lanes)]
    tail = [h.z3int("%st%d" % (name, i), 0, 255) for i in range(cap)]
    return head, tail, cs.CrayCompressedMessage(mj.array(head, dtype="uint32"), bk.CrayTail(mj.array([ptr]), mj.array(tail, dtype="uint8")))


def vals(x):
    return [mj.num(v) for v in x.a.reshape(-1)]


def eqs(x, want):
    v = vals(x)
    return E.band(*[E.eq(a, b) for a, b in zip(v, want)]) if len(v) == len(want) else False


def push_pop(lanes, prec, cap, ptr):
    """a stack with spare room: pop after push restores it, and the top shows the pushed interval"""
    def body(h):
        head, tail, m = message(h, lanes, cap, ptr)
        lo = [h.z3int("lo%d" % i, 0, (1 << prec) - 1) for i in range(lanes)]
        hi = [h.z3int("hi%d" % i, 1, 1 << prec) for i in range(lanes)]
        for a, b in zip(lo, hi):
            h.assume(E.lt(a, b))
        L, H = mj.array(lo, dtype="uint32"), mj.array(hi, dtype="uint32")
        p = cs.push_symbols(m, L, H, prec)
        for v in vals(p.head):
            h.claim("the head stays normalised", E.band(E.le(1 << 24, v), E.lt(v, 1 << 32)))
        f = vals(cs.peek(p, prec))
        h.claim("the top of the stack lies in the pushed interval", E.band(*[E.band(E.le(a, v), E.lt(v, b)) for a, v, b in zip(lo, f, hi)]))
        r = cs.pop_symbols(p, cs.peek(p, prec), L, H, prec)
        h.claim("popping restores the head", eqs(r.head, head))
        h.claim("popping restores the tail pointer", int(r.tail.pointer) == ptr)
        h.claim("popping restores the tail", eqs(mj.ndarray(r.tail.data.a[ptr:], "uint8"), tail[ptr:]))
        q = int(p.tail.pointer)
        h.claim("bytes below the pointer are untouched", eqs(mj.ndarray(p.tail.data.a[ptr:], "uint8"), tail[ptr:]))
        h.claim("at most two bytes per lane are moved", 0 <= ptr - q <= 2 * lanes)
    return body


def pop_push(lanes, prec, cap, ptr):
    """bits-back needs the converse: pushing what was popped restores the stack"""
    def body(h):
        head, tail, m = message(h, lanes, cap, ptr)
        lo = [h.z3int("lo%d" % i, 0, (1 << prec) - 1) for i in range(lanes)]
        hi = [h.z3int("hi%d" % i, 1, 1 << prec) for i in range(lanes)]
        cfs = cs.peek(m, prec)
        for a, v, b in zip(lo, vals(cfs), hi):
            h.assume(E.band(E.lt(a, b), E.le(a, v), E.lt(v, b)))
        L, H = mj.array(lo, dtype="uint32"), mj.array(hi, dtype="uint32")
        p = cs.pop_symbols(m, cfs, L, H, prec)
        for v in vals(p.head):
            h.claim("the head stays normalised", E.band(E.le(1 << 24, v), E.lt(v, 1 << 32)))
        r = cs.push_symbols(p, L, H, prec)
        h.claim("pushing restores the head", eqs(r.head, head))
        h.claim("pushing restores the tail pointer", int(r.tail.pointer) == ptr)
        h.claim("pushing restores the tail", eqs(mj.ndarray(r.tail.data.a[ptr:], "uint8"), tail[ptr:]))
    return body


def flatten(lanes, cap):
    def body(h):
        ptr = h.pyint("ptr", 0, cap)
        head, tail, m = message(h, lanes, cap, ptr)
        flat, lim = cs.craymessage_to_array(m)
        h.claim("four bytes per lane and the tail", flat.shape == (4 * lanes + cap,) and flat.dtype_ == "uint8")
        h.claim("the limit counts the head", int(lim) == 4 * lanes + ptr)
        r = cs.array_to_craymessage(flat, (lanes,), ptr)
        h.claim("flattening is reversible", E.band(eqs(r.head, head), eqs(r.tail.data, tail)))
        h.claim("the pointer is kept", int(r.tail.pointer) == ptr)
        e, lims = cs.convert_to_embedded([flat], (lanes,), cap + 3)
        h.claim("embedding adds zeros between head and tail", eqs(e[0], vals(mj.ndarray(flat.a[:4 * lanes], "uint8")) + [0, 0, 0] + tail))
        h.claim("embedding points behind the zeros", int(lims[0]) == 4)
        try:
            cs.convert_to_embedded([flat], (lanes,), cap - 1)
            ok = False
        except ValueError:
            ok = True
        h.claim("too small a tail is rejected", ok)
    return body


class Rand:
    def __init__(self, h):
        self.h = h

    def __enter__(self):
        mj.RANDOM[0] = lambda k, lo, hi: self.h.z3int("rnd%d" % k, lo, hi - 1)

    def __exit__(self, *a):
        mj.RANDOM[0] = None


def buffer(h, lanes, tail, name="b"):
    """an arbitrary earlier buffer: normalised heads (four bytes per lane, most significant first) and tail bytes"""
    return mj.array([h.z3int("%s%d" % (name, i), 1 if i < lanes else 0, 255) for i in range(4 * lanes + tail)], dtype="uint8")


def msg_array(msgs, dt="int64"):
    return mj.array(msgs, dtype=dt)


TABS = {  # cumulative tables: rare, even and dominant symbols
    "rare": [0, 1, TOP], "even": [0, TOP // 2, TOP], "tri": [0, 1, TOP - 700, TOP], "skew": [0, 60000, TOP],
    "odd": [0, 20011, TOP], "quad": [0, 3, 30000, 65000, TOP],
}


def coder(B, n, lanes, keys, arb=True):
    """keys[b][l]: the table of a lane; start: an arbitrary earlier buffer (all heads, all tail bytes) or a fresh one"""
    def body(h):
        with Rand(h):
            tabs = [[TABS[k] for k in row] for row in keys]
            k = len(tabs[0][0]) - 1
            msgs = [[[h.pyint("m%d_%d_%d" % (b, i, l), 0, k - 1) for l in range(lanes)] for i in range(n)] for b in range(B)]
            codec = cs.fixed_array_cdf_codec(mj.array(tabs, dtype="uint32"))
            cap = 2 * n * lanes + 2 * lanes + 4
            start = [buffer(h, lanes, 2, "b%d_" % b) for b in range(B)] if arb else None
            comp, _ = cs.encode(msg_array(msgs), codec, start_buffers=start, tail_capacity=cap)
            h.claim("one buffer per batch element", len(comp) == B)
            out, rest, _ = cs.decode(comp, n, (lanes,), codec, tail_capacity=2 * n * lanes + 4 * lanes + 2)
            h.claim("decoding returns the messages", out.shape == (B, n, lanes) and all(int(v) == w for v, w in zip(vals(out), [x for b in msgs for i in b for x in i])))
            h.claim("the buffers left over are returned", len(rest) == B)
            for b in range(B):
                if arb:
                    h.claim("decoding restores the earlier buffer", eqs(rest[b], vals(start[b])))
    return body


def appended(lanes1, lanes2, t1, t2, arb=True):
    """a second message coded into the buffer of the first: both come back, last in first out"""
    def body(h):
        with Rand(h):
            c1, c2 = TABS[t1], TABS[t2]
            m1 = [[[h.pyint("m%d" % l, 0, len(c1) - 2) for l in range(lanes1)]]]
            m2 = [[[h.pyint("n%d" % l, 0, len(c2) - 2) for l in range(lanes2)]]]
            k1 = cs.fixed_array_cdf_codec(mj.array([[c1] * lanes1], dtype="uint32"))
            k2 = cs.fixed_array_cdf_codec(mj.array([[c2] * lanes2], dtype="uint32"))
            cap = 16
            start = [buffer(h, lanes1, 2)] if arb else None
            comp, _ = cs.encode(msg_array(m1), k1, start_buffers=start, tail_capacity=cap)
            comp, _ = cs.encode(msg_array(m2), k2, start_buffers=comp, tail_capacity=cap)
            o2, comp, _ = cs.decode(comp, 1, (lanes2,), k2, tail_capacity=cap)
            o1, rest, _ = cs.decode(comp, 1, (lanes1,), k1, tail_capacity=cap)
            h.claim("the appended message comes back first", all(int(v) == w for v, w in zip(vals(o2), m2[0][0])))
            h.claim("the first message comes back next", all(int(v) == w for v, w in zip(vals(o1), m1[0][0])))
            if arb:
                h.claim("the earlier buffer is restored", eqs(rest[0], vals(start[0])))
    return body


def bits_back(n, lanes, prior, post, obs, fresh=False):
    def body(h):
        with Rand(h):
            pri = cs.fixed_array_cdf_codec(mj.array([TABS[prior]] * lanes, dtype="uint32"))
            P, O = mj.array([TABS[t] for t in post], dtype="uint32"), mj.array([TABS[t] for t in obs], dtype="uint32")
            codec = cs.bitsback_ans_codec(pri, lambda x: cs.fixed_array_cdf_codec(P[x], allow_empty_pops=True), lambda z: cs.fixed_array_cdf_codec(O[z]), (lanes,), "int64")
            msgs = [[[h.pyint("m%d_%d" % (i, l), 0, len(post) - 1) for l in range(lanes)] for i in range(n)]]
            start = None if fresh else [buffer(h, lanes, 3 * n * lanes)]
            comp, _ = cs.encode(msg_array(msgs), codec, start_buffers=start, tail_capacity=9 * n * lanes + 4)
            out, rest, _ = cs.decode(comp, n, (lanes,), codec, tail_capacity=9 * n * lanes + 8)
            h.claim("bits-back decoding returns the messages", all(int(v) == w for v, w in zip(vals(out), [x for i in msgs[0] for x in i])))
            if start:
                h.claim("bits-back returns the bits it took", eqs(rest[0], vals(start[0])))
    return body


def state_codec(n, a, b):
    """default codec: push threads the CDF state from the last symbol to the first, pop from the final state back"""
    def body(h):
        with Rand(h):
            T = mj.array([TABS[a], TABS[b]], dtype="uint32")
            msgs = [[[h.pyint("m%d" % i, 0, 1)] for i in range(n)]]

            def fwd(s, st):  # state counts the symbols on the stack
                row = T[st[0] % 2]
                return row[s], row[s + 1], (st[0] + 1,)

            def inv(v, st):
                c = st[0] - 1
                row = T[c % 2]
                s = mj.argmin(mj.expand_dims(v, -1) >= row, axis=-1) - 1
                return row[s], row[s + 1], s, (c,)

            codec = cs.default_rans_codec(fwd, inv, (mj.array([0]),))
            comp, st = cs.encode(msg_array(msgs), codec, start_buffers=[buffer(h, 1, 2)], tail_capacity=8)
            h.claim("the final state is returned", int(st[0][0]) == n)
            codec = cs.default_rans_codec(fwd, inv, st)
            out, _, st2 = cs.decode(comp, n, (1,), codec, tail_capacity=12)
            h.claim("state-dependent coding returns the messages", all(int(v) == w for v, w in zip(vals(out), [x for i in msgs[0] for x in i])))
            h.claim("decoding returns to the initial state", int(st2[0][0]) == 0)
    return body


def instances(tier):
    out = []
    deep = tier != "quick"
    budget = 850 if deep else 300
    for lanes, prec, cap, ptr in ((1, 16, 5, 4), (2, 16, 8, 7), (1, 12, 5, 4), (3, 16, 10, 10)):
        if lanes == 3 and tier == "quick":
            continue
        out.append({"name": f"push-pop/l{lanes}-p{prec}", "group": "step", "body": push_pop(lanes, prec, cap, ptr), "validate": 3, "max_paths": 20000, "budget": budget})
        out.append({"name": f"pop-push/l{lanes}-p{prec}", "group": "step", "body": pop_push(lanes, prec, cap + 4 * lanes, ptr), "validate": 3, "max_paths": 20000, "budget": budget})
    for lanes, cap in ((1, 3), (2, 3)):
        out.append({"name": f"flat/l{lanes}", "group": "flat", "body": flatten(lanes, cap), "validate": 2})
    C = [("one", 1, 1, 1, [["tri"]]), ("two", 1, 2, 1, [["rare"]]), ("two-odd", 1, 2, 1, [["odd"]]), ("lanes", 1, 1, 2, [["rare", "skew"]]), ("batch", 2, 1, 1, [["odd"], ["rare"]]), ("quad", 1, 1, 1, [["quad"]]),
         ("fresh", 1, 2, 2, [["rare", "odd"]], False), ("fresh-batch", 2, 2, 1, [["quad"], ["quad"]], False)]
    for c in C:
        out.append({"name": "coder/" + c[0], "group": "coder", "body": coder(*c[1:]), "validate": 2, "max_paths": 20000, "budget": budget})
    A = [("1-1", 1, 1, "rare", "odd"), ("2-1-fresh", 2, 1, "skew", "tri", False), ("1-1-fresh", 1, 1, "quad", "quad", False)] + ([("2-1", 2, 1, "even", "tri")] if deep else [])
    for a in A:
        out.append({"name": "append/" + a[0], "group": "append", "body": appended(*a[1:]), "validate": 2, "max_paths": 20000, "budget": budget})
    Bb = [("n1", 1, 1, "odd", ["skew", "even"], ["odd", "skew"]), ("fresh", 2, 1, "odd", ["skew", "even"], ["odd", "skew"], True), ("l2-fresh", 1, 2, "odd", ["even", "skew"], ["skew", "even"], True)]
    if deep:
        Bb += [("n2", 2, 1, "even", ["skew", "odd"], ["even", "odd"]), ("l2", 1, 2, "odd", ["even", "skew"], ["skew", "even"])]
    for b in Bb:
        out.append({"name": "bitsback/" + b[0], "group": "bitsback", "body": bits_back(*b[1:]), "validate": 2, "max_paths": 20000, "budget": budget})
    out.append({"name": "state", "body": state_codec(2, "rare", "odd"), "validate": 2, "max_paths": 20000, "budget": budget})
    return out
