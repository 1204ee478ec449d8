"""P26: VCT transformer layers: attention formula, causal decoding, block structure, start symbol."""
import os
import sys

import torch
import torch.nn.functional as F
from torch import nn

from vlib.harness import REPO
from vlib.util import dup, fill, pat, underflow

sys.path.insert(0, os.path.join(REPO, "projects", "torch_vct"))
from neural.entropy_model_layers import EncoderSection, LearnedPosition, StartSym, Transformer, TransformerBlock  # noqa: E402
from neural.layers_utils import MLP, StochasticDepth, WindowMultiHeadAttention  # noqa: E402

BOUNDS = ("attention: every query/key/value token in [-2,2], 1..2 windows, 2..3 query tokens, 2..6 key tokens, hidden size 2..4 with 1..2 heads, fixed irregular weights, masks none/causal/arbitrary 0-1; "
          "causality: every pair of 3-token sequences and encoder outputs, one decoder block (stacks: blocks applied in order, each with the causal mask); start symbol and position: every input; stochastic depth: every input and every random draw")
OUTSIDE = "float rounding; training-mode dropout; attention logits of magnitude above 1e5 (the additive mask is -1e6)"
ASSUMPTIONS = ["softmax is replaced by a stand-in with the float32 behaviour that matters here: logits below -5e5 get weight exactly 0, the others a positive weight that depends on the logit alone, normalised to sum 1 (an injective-enough rational function instead of exp)",
               "layer normalisation and GELU are replaced by per-token stand-ins in the block claims"]


class Soft(nn.Module):
    """float32 softmax abstraction: exp underflows to exactly 0 far below the maximum"""

    def forward(self, x):
        w = torch.where(underflow(x, -5e5, 2), torch.zeros_like(x), 1.0 + x * x)
        return w / w.sum(-1, keepdim=True)


def soft1(x):
    return Soft()(x)


def mha(c, heads):
    m = fill(WindowMultiHeadAttention(c, heads).double().eval(), 3, -0.5, 0.5)
    return m


def ref_attention(m, q, k, v, c, heads, mask):
    """one window; q [Lq,c], k, v [Lk,c]"""
    d = c // heads
    Q, K, V = F.linear(q, m.q_linear.weight, m.q_linear.bias), F.linear(k, m.k_linear.weight, m.k_linear.bias), F.linear(v, m.v_linear.weight, m.v_linear.bias)
    feats, att = [], []
    for a in range(heads):
        s = slice(a * d, (a + 1) * d)
        rows, ws = [], []
        for i in range(q.shape[0]):
            lg = torch.stack([(Q[i, s] * K[j, s]).sum() / d ** 0.5 + (-1e6 * mask[i][j % q.shape[0]] if mask is not None else 0) for j in range(k.shape[0])])
            w = soft1(lg)
            if mask is not None:
                w = w * torch.tensor([1.0 - mask[i][j % q.shape[0]] for j in range(k.shape[0])], dtype=w.dtype)
            ws.append(w)
            rows.append(sum(w[j] * V[j, s] for j in range(k.shape[0])))
        feats.append(torch.stack(rows))
        att.append(torch.stack(ws))
    y = torch.cat(feats, 1)
    return F.linear(y, m.proj.weight, m.proj.bias), torch.stack(att)


def attention(B, Lq, Lk, c, heads, mask):
    base = mha(c, heads)

    def body(h):
        m = dup(base)
        m.softmax = Soft()
        q = h.tensor("q", (B, Lq, c), dtype=torch.float64, lo=-2, hi=2)
        k = h.tensor("k", (B, Lk, c), dtype=torch.float64, lo=-2, hi=2)
        v = h.tensor("v", (B, Lk, c), dtype=torch.float64, lo=-2, hi=2)
        mk = torch.tensor(mask, dtype=torch.float64) if mask is not None else None
        y, a = m(q, k, v, mk)
        h.claim("features keep the query shape", tuple(y.shape) == (B, Lq, c))
        h.claim("attention matrix shape", tuple(a.shape) == (B, heads, Lq, Lk))
        for b in range(B):
            fy, fa = ref_attention(m, q[b], k[b], v[b], c, heads, mask)
            h.claim("attention weights are the masked softmax of scaled inner products, per head", h.close(a[b], fa))
            h.claim("features are the projected weighted values", h.close(y[b], fy))
            if mask is not None:
                for i in range(Lq):
                    for j in range(Lk):
                        if mask[i][j % Lq] == 1:
                            h.claim("masked positions get weight zero", h.eq(a[b, :, i, j], torch.zeros(heads, dtype=torch.float64)))
    return body


class Norm(nn.Module):
    def __init__(self, k):
        super().__init__()
        self.k = k

    def forward(self, x):
        return (x - x.flip(-1) * 0.5) * self.k


class PerToken(nn.Module):
    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def forward(self, x):
        return x * self.a + x.flip(-1) * 0.25 + self.b


def block(c, heads, L, dec):
    b = TransformerBlock(seq_length=L, num_heads=heads, hidden_dim=c, mlp_dim=2 * c, drop_out_rate=0.0, drop_path_rate=0.0, is_decoder=dec).double().eval()
    fill(b, 5, -0.5, 0.5)
    return b


def stand_in(b, lin=False):
    for i, n in enumerate(("ln_1a", "ln_1b", "ln_2a", "ln_2b")):
        setattr(b, n, Norm(1 + 0.25 * i))
    b.mlp1, b.mlp2 = PerToken(0.5, 0.125), PerToken(0.25, -0.25)
    b.self_attention.softmax, b.cross_attention.softmax = Soft(), Soft()
    return b


class Att(nn.Module):
    """value-distinguishing attention stand-in"""

    def __init__(self, k):
        super().__init__()
        self.k, self.masks = k, []

    def forward(self, query, key, value, mask=None):
        self.masks.append(mask)
        return query * self.k + key.mean(-2, keepdim=True) * 0.5 + value.mean(-2, keepdim=True) * 0.125, None


def structure(dec, with_enc):
    base = block(2, 1, 3, dec)

    def body(h):
        b = stand_in(dup(base))
        b.self_attention, b.cross_attention = Att(0.5), Att(0.75)
        x = h.tensor("x", (2, 3, 2), dtype=torch.float64, lo=-4, hi=4)
        e = h.tensor("e", (2, 6, 2), dtype=torch.float64, lo=-4, hi=4) if with_enc else None
        y = b(x, e) if with_enc else b(x)
        n = b.ln_1a(x)
        s = x + Att(0.5)(n, n, n)[0]
        s = s + b.mlp1(b.ln_1b(s))
        n = b.ln_2a(s)
        kv = e if with_enc else n
        t = s + Att(0.75)(n, kv, kv)[0]
        t = t + b.mlp2(b.ln_2b(t))
        h.claim("block is two pre-normalised residual attention/MLP stages", h.close(y, t))
        h.claim("cross attention is not masked", b.cross_attention.masks == [None])
        mk = b.self_attention.masks[0]
        h.claim("only decoders mask self attention", (mk is not None) == dec)
    return body


BLOCK = block(2, 1, 2, True)


def needs_encoder(h):
    b = BLOCK
    try:
        b(pat((1, 2, 2), dtype=torch.float64))
        h.claim("a decoder block without encoder output is rejected", False)
    except ValueError:
        h.claim("a decoder block without encoder output is rejected", True)


def causal(L, c, heads, layers, i):
    """token i of the decoder's output is a function of tokens <= i and the encoder output alone"""
    base = Transformer(seq_length=L, num_layers=layers, num_heads=heads, hidden_dim=c, mlp_expansion=2, dropout=0.0, is_decoder=True).double().eval()
    fill(base, 7, -0.5, 0.5)

    def body(h):
        t = dup(base)
        for n, b in list(t.layers.named_children()):
            t.layers.add_module(n, stand_in(b))
        e = pat((1, 2 * L, c), 3, torch.float64, -1, 1)
        x = pat((1, L, c), 5, torch.float64, -2, 2)
        u = h.tensor("u", (1, L - 1 - i, c), dtype=torch.float64, lo=-2, hi=2)
        p = h.tensor("p", (1, 1, c), dtype=torch.float64, lo=-2, hi=2)
        x1 = torch.cat([x[:, :i], p, x[:, i + 1:]], 1)
        x2 = torch.cat([x[:, :i], p, u], 1)
        y1, y2 = t(x1, e), t(x2, e)
        h.claim("shape kept", tuple(y1.shape) == (1, L, c))
        h.claim("a decoder token does not depend on later tokens", h.close(y1[:, :i + 1], y2[:, :i + 1]))
    return body


def encoder_stack(layers):
    base = EncoderSection(num_layers=layers, num_heads=1, hidden_dim=2, mlp_expansion=2, dropout=0.0).double().eval()
    fill(base, 9, -0.5, 0.5)

    def body(h):
        t = dup(base)
        blocks = []
        for k, (n, b) in enumerate(list(t.layers.named_children())):
            s = stand_in(b)
            s.self_attention, s.cross_attention = Att(0.5 + k), Att(0.75 - 0.125 * k)
            t.layers.add_module(n, s)
            blocks.append(s)
        x = h.tensor("x", (2, 3, 2), dtype=torch.float64, lo=-2, hi=2)
        y = t(x)
        z = x
        for b in blocks:
            z = b(z)
        h.claim("encoder applies its blocks in order, without masks", h.close(y, z) if len(blocks) == layers else False)
        h.claim("no masks in the encoder", all(m is None for b in blocks for m in b.self_attention.masks))
    return body


def decoder_stack(layers):
    base = Transformer(seq_length=3, num_layers=layers, num_heads=1, hidden_dim=2, mlp_expansion=2, dropout=0.0, is_decoder=True).double().eval()
    fill(base, 9, -0.5, 0.5)

    def body(h):
        t = dup(base)
        blocks = []
        for k, (n, b) in enumerate(list(t.layers.named_children())):
            s = stand_in(b)
            s.self_attention, s.cross_attention = Att(0.5 + k), Att(0.75 - 0.125 * k)
            t.layers.add_module(n, s)
            blocks.append(s)
        x = h.tensor("x", (1, 3, 2), dtype=torch.float64, lo=-2, hi=2)
        e = h.tensor("e", (1, 3, 2), dtype=torch.float64, lo=-2, hi=2)
        y = t(x, e)
        z = x
        for b in blocks:
            z = b(z, e)
        h.claim("decoder applies its blocks in order to the same encoder output", h.close(y, z) if len(blocks) == layers else False)
        tri = torch.tensor([[0.0, 1, 1], [0, 0, 1], [0, 0, 0]])
        for b in blocks:
            for m in b.self_attention.masks:
                h.claim("every decoder block masks exactly the later tokens", h.eq(m, tri.to(m.dtype)) if m is not None else False)
    return body


def start(h):
    m = StartSym(3).double()
    x = h.tensor("x", (2, 4, 3), dtype=torch.float64)
    s = h.tensor("s", (3,), dtype=torch.float64)
    m.sym = nn.Parameter(s.clone())
    x0 = x.clone()
    y = m(x)
    h.claim("first token is the start symbol in every window", h.eq(y[:, 0], torch.stack([s, s])))
    h.claim("the others are the input shifted by one", h.eq(y[:, 1:], x0[:, :-1]))
    z = StartSym._shift_to_the_right(x)
    h.claim("zeros without a prefix", h.eq(z[:, 0], torch.zeros(2, 3, dtype=torch.float64)))
    h.claim("shift without a prefix", h.eq(z[:, 1:], x0[:, :-1]))
    h.claim("input untouched", h.eq(x, x0))


def position(h):
    m = LearnedPosition(2, 3).double()
    e = h.tensor("e", (1, 2, 3), dtype=torch.float64)
    x = h.tensor("x", (2, 2, 3), dtype=torch.float64)
    m._emb = nn.Parameter(e.clone())
    y = m(x)
    for b in range(2):
        h.claim("adds the position embedding to every window", h.eq(y[b], x[b] + e[0]))


def mlp(h):
    m = fill(MLP(2, 3, 0.0).double().eval(), 4)
    m.act = PerToken(2.0, 0.5)
    x = h.tensor("x", (2, 2, 2), dtype=torch.float64, lo=-4, hi=4)
    y = m(x)
    h.claim("two affine maps around the activation", h.close(y, F.linear(m.act(F.linear(x, m.fc1.weight, m.fc1.bias)), m.fc2.weight, m.fc2.bias)))


def depth(rate):
    def body(h):
        m = StochasticDepth(rate)
        x = h.tensor("x", (2, 2, 2), lo=-4, hi=4)
        m.eval()
        h.claim("identity in evaluation", h.eq(m(x), x))
        m.train()
        y = m(x)
        if rate == 0.0:
            h.claim("identity without dropping", h.eq(y, x))
            return
        for b in range(2):
            z = h.eq(y[b], torch.zeros(2, 2))
            k = h.close(y[b], x[b] / (1 - rate))
            h.claim("a sample is dropped whole or kept whole, rescaled by the keep probability", _or(h, k, z))
    return body


def _or(h, a, b):
    if not h.symbolic:
        return bool(a) or bool(b)
    import z3
    tz = lambda v: v if isinstance(v, z3.ExprRef) else z3.BoolVal(bool(v))
    return z3.Or(tz(a), tz(b))


CAUSAL2 = [[0, 1], [0, 0]]
CAUSAL3 = [[0, 1, 1], [0, 0, 1], [0, 0, 0]]


def instances(tier):
    out = []
    A = [(1, 1, 2, 4, 1, None), (2, 2, 4, 2, 2, None), (1, 2, 2, 4, 1, CAUSAL2), (1, 2, 4, 2, 2, [[0, 1], [1, 0]]), (1, 3, 3, 2, 2, CAUSAL3)]
    if tier == "thorough":
        A += [(1, 3, 6, 4, 2, None), (2, 3, 3, 4, 2, CAUSAL3), (1, 2, 6, 4, 4, [[0, 0], [1, 0]])]
    for a in A:
        out.append({"name": "attention/%d-%d-%d-%d-%d-%s" % (*a[:5], "free" if a[5] is None else "".join(str(x) for r in a[5] for x in r)), "group": "attention", "body": attention(*a), "validate": 2})
    for d, e in [(False, False), (True, True), (False, True)]:
        out.append({"name": f"block/{'decoder' if d else 'encoder'}{'-ctx' if e else ''}", "group": "block", "body": structure(d, e), "validate": 2})
    out.append({"name": "block/needs-encoder", "group": "block", "body": needs_encoder, "validate": 1})
    C = [(3, 2, 1, 1, 0), (3, 2, 2, 1, 1), (3, 4, 2, 1, 1)]
    if tier == "thorough":
        C += [(4, 2, 2, 1, 1), (4, 4, 2, 1, 2)]
    for a in C:
        out.append({"name": "causal/%d-%d-%d-%d-%d" % a, "group": "causal", "body": causal(*a), "validate": 2})
    for n in (1, 2, 3):
        out.append({"name": f"encoder/{n}", "group": "encoder", "body": encoder_stack(n), "validate": 2})
    for n in (1, 3):
        out.append({"name": f"decoder/{n}", "group": "encoder", "body": decoder_stack(n), "validate": 2})
    out += [{"name": "start", "body": start, "validate": 2}, {"name": "position", "body": position, "validate": 2}, {"name": "mlp", "body": mlp, "validate": 2}]
    out += [{"name": f"depth/{r}", "group": "depth", "body": depth(r), "validate": 2} for r in (0.0, 0.25)]
    return out
