"""P28: VCT entropy model: autoregressive coding, context, training forward."""
import os
import sys

import torch
from torch import nn

from vlib.harness import REPO
from vlib.util import dup, fill, pat

sys.path.insert(0, os.path.join(REPO, "projects", "torch_vct"))
from neural import entropy_model as em  # noqa: E402
from neural.entropy_model import PreviousLatent, VCTEntropyModel  # noqa: E402

BOUNDS = ("coding: every latent in [-16,16] of 1 image x 1..2 channels at sizes 2x2, 3x2, 3x5 and 1x3 with windows of 1..2 and every context; transformer: any causal predictor of a parametrised family (stand-in); forward: 1..2 images; "
          "composition: every context, latent and parameter of the linear parts; context lengths 1..4 with 1..4 previous latents")
OUTSIDE = "float rounding; the transformer weights (P26 covers the layers); the range coder"
ASSUMPTIONS = ["entropy coding is a lossless stand-in storing rounded symbols and their table indexes", "the transformer is a causal stand-in in the coding claims; attention stacks are value-distinguishing stand-ins in the composition claims"]


class Str:
    def __init__(self, sym, n):
        self.sym, self.n = sym, n

    def __len__(self):
        return self.n


class Coder:
    def __init__(self, b):
        self.log, self.n = [], 0
        b._entropy_model.compress, b._entropy_model.decompress = self.compress, self.decompress

    def compress(self, inputs, indexes, means=None):
        self.n += 1
        self.log.append(("c", indexes))
        q = torch.round(inputs)
        return [Str(q[i], 3 + 2 * self.n + i) for i in range(inputs.shape[0])]

    def decompress(self, strings, indexes, dtype=torch.float, means=None):
        self.log.append(("d", indexes))
        return torch.stack([s.sym for s in strings])


def make(C=1, ctx=2, we=2, wd=2, d=2):
    m = VCTEntropyModel(num_channels=C, context_len=ctx, window_size_enc=we, window_size_dec=wd, num_layers_encoder_sep=1, num_layers_encoder_joint=1, num_layers_decoder=1, d_model=d, num_head=1, mlp_expansion=1)
    return fill(m.eval(), 3)


BASE = {k: make(*k) for k in ((1, 2, 2, 2, 2), (2, 2, 2, 2, 2), (1, 2, 4, 2, 2), (1, 1, 1, 1, 2), (2, 3, 2, 2, 2), (1, 4, 2, 2, 2), (2, 2, 4, 2, 2))}


def predictor(C, d, shift=0):
    """causal: outputs at token i are functions of tokens < i (shift=0) and of the context"""
    def f(*, encoded_patched, latent_q_patched):
        L = latent_q_patched.shape[1]
        ctx = encoded_patched.mean(dim=(1, 2))  # [b']
        mean, scale, out = [], [], []
        for i in range(L):
            k = min(i + shift, L)
            acc = ctx.unsqueeze(-1) * 0.5 + 0.3
            for j in range(k):
                acc = acc + latent_q_patched[:, j, :] * (0.25 + 0.125 * j)
            acc = acc.expand(-1, C) if acc.shape[-1] != C else acc
            mean.append(acc + 0.125 * i)
            scale.append(acc * 0.5 + 1.0 + i)
            out.append(torch.cat([(acc.sum(-1, keepdim=True) * (0.5 + e) + i) for e in range(d)], -1))
        return torch.stack(mean, 1), torch.stack(scale, 1), torch.stack(out, 1)
    return f


def prev(h, name, n, b, L, d):
    return tuple(PreviousLatent(quantized=None, processed=h.tensor(name + str(i), (b, L, d), lo=-1, hi=1)) for i in range(n))


def reference(f, x_patched, enc):
    """encode token by token: quantise token i with the prediction from tokens < i"""
    b, L, C = x_patched.shape
    q = torch.full_like(x_patched, 10.0)
    feats = []
    for i in range(L):
        m, s, o = f(encoded_patched=enc, latent_q_patched=q)
        rm = torch.round(m[:, i])
        qi = torch.round(x_patched[:, i] - rm) + rm
        feats.append(o[:, i])
        q = torch.cat([q[:, :i], qi.unsqueeze(1), q[:, i + 1:]], 1)
    return q, torch.stack(feats, 1)


def coding(key, H, W, nprev=1):
    C, ctx, we, wd, d = key

    def body(h):
        m = dup(BASE[key])
        co = Coder(m.bottleneck)
        m._get_transformer_output = f = predictor(C, d)
        x = h.tensor("x", (1, C, H, W), lo=-16, hi=16)
        x0 = x.clone()
        nb = -(-H // wd) * -(-W // wd)
        pv = prev(h, "e", nprev, nb, we * we, d)
        o1 = m.compress(latent_unquantized=x, previous_latents=pv, run_decode=False)
        ne = len(co.log)
        o2 = m.compress(latent_unquantized=x, previous_latents=pv, run_decode=True)
        enc = torch.cat(m._get_encoded_seqs(pv), -2)
        xp, n = m.patcher(x0, wd)
        q, ft = reference(f, xp, enc)
        want = m.patcher.unpatch((q, n), crop=(H, W), channels_last=True)
        h.claim("latent shape", tuple(o2.perturbed_latent.shape) == (1, C, H, W))
        h.claim("decoded latent is the sequentially quantised latent", h.eq(o2.perturbed_latent, want))
        h.claim("skipping the decoder returns the same latent", h.eq(o1.perturbed_latent, want))
        if H * W <= 4:
            h.claim("decoded values are within one half of the latent", h.le((o2.perturbed_latent - x0).abs(), torch.full((1, C, H, W), 0.5)))
        h.claim("features are those of the sequential predictions", h.close(o1.features, m.patcher.unpatch((ft, n), crop=(H, W), channels_last=True)))
        h.claim("bits are eight per coded byte", h.eq(o1.bits, torch.tensor([8.0 * sum(3 + 2 * (k + 1) for k in range(wd * wd))])))
        c = [i for t, i in co.log[ne:] if t == "c"]
        dd = [i for t, i in co.log[ne:] if t == "d"]
        h.claim("one coder call per token each way", len(c) == wd * wd and len(dd) == wd * wd and ne == wd * wd)
        for a, b in zip(c, dd):
            h.claim("decoder uses the encoder's tables", h.eq(a, b))
        h.claim("latent untouched", h.eq(x, x0))
        # a real decoder, which has no access to the encoder's predictions
        strings, extra = m._encode(xp, enc)
        strings = list(strings)
        r = m._decode(strings, enc, shape=(H, W, C), encode_means=torch.zeros(nb, wd * wd, C), encode_scales=torch.ones(nb, wd * wd, C), use_output_from_encode=False)
        h.claim("decoding from the strings alone gives the same latent", h.eq(r, want))
    return body


def causal_check(shift):
    def body(h):
        key = (1, 2, 2, 2, 2)
        m = dup(BASE[key])
        m._get_transformer_output = predictor(1, 2, shift)
        x = h.tensor("x", (1, 4, 1), lo=-4, hi=4)
        h.assume(x[0, 0, 0] >= 0)
        h.assume((x[0, :, 0] <= 4).all())
        e = torch.zeros(1, 8, 2)
        try:
            m.validate_causal(latent_q_patched=x, encoded=e)
            ok = True
        except ValueError:
            ok = False
        h.claim("a causal predictor passes and one that looks at the current token is rejected", ok == (shift == 0))
    return body


def forward(key, B, H, W, train):
    C, ctx, we, wd, d = key

    def body(h):
        m = dup(BASE[key])
        seen, bot = [], []
        f = predictor(C, d)

        def tf(*, encoded_patched, latent_q_patched):
            seen.append((encoded_patched, latent_q_patched))
            return f(encoded_patched=encoded_patched, latent_q_patched=latent_q_patched)

        class Bot(nn.Module):
            def forward(self, inputs, scales, means, training=None):
                bot.append((inputs, scales, means))
                return inputs * 0.5 + means, scales * 0.25

        m._get_transformer_output, m.bottleneck = tf, Bot()
        m.train(train)
        x = h.tensor("x", (B, C, H, W), lo=-16, hi=16)
        nh, nw = -(-H // wd), -(-W // wd)
        nb = B * nh * nw
        pv = prev(h, "e", 1, nb, we * we, d)
        o = m(latent_unquantized=x, previous_latents=pv)
        h.claim("one prediction and one bottleneck call", len(seen) == 1 and len(bot) == 1)
        qp = m.patcher(torch.round(x), wd).tensor
        h.claim("the transformer sees the rounded latent", h.eq(seen[0][1], qp))
        h.claim("the transformer sees the repeated context", h.eq(seen[0][0], torch.cat([pv[0].processed] * ctx, -2)))
        mu, sc, ft = f(encoded_patched=seen[0][0], latent_q_patched=qp)
        xp = m.patcher(x, wd).tensor
        h.claim("the bottleneck codes the unrounded latent", h.eq(bot[0][0], xp))
        h.claim("with the predicted scales", h.close(bot[0][1], sc))
        h.claim("and means", h.close(bot[0][2], mu))
        u = lambda t: m.patcher.unpatch((t, (nh, nw)), crop=(H, W), channels_last=True)
        h.claim("output latent", h.close(o.perturbed_latent, u(xp * 0.5 + mu)))
        h.claim("likelihoods", h.close(o.bits, sc * 0.25))
        h.claim("features", h.close(o.features, u(ft)))
    return body


class Lin(nn.Module):
    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def forward(self, x):
        return x * self.a + x.flip(1) * 0.125 + self.b


class Dec(nn.Module):
    def forward(self, input, encoder_output):
        return input * 0.5 + input.flip(1) * 0.25 + encoder_output.mean(1, keepdim=True)


def compose(h):
    key = (2, 2, 4, 2, 2)
    m = dup(BASE[key])
    m.post_embedding_layernorm, m.encoder_joint, m.encoder_sep, m.decoder = Lin(0.75, 0.25), Lin(0.5, 0.5), Lin(1.25, -0.5), Dec()
    m.mean_head, m.scale_head = Lin(2.0, 1.0), Lin(3.0, 2.0)
    q = h.tensor("q", (2, 4, 2), lo=-70, hi=70)
    e = h.tensor("e", (2, 32, 2), lo=-1, hi=1)
    mu, sc, out = m._get_transformer_output(encoded_patched=e, latent_q_patched=q)
    z = torch.cat([m.learned_zero.sym.reshape(1, 1, 2).expand(2, 1, 2), q[:, :3]], 1)
    z = m.post_embedding_layernorm(torch.nn.functional.linear(z / 35.0, m.decoder_embedding.weight, m.decoder_embedding.bias)) + m.dec_position._emb
    c = m.encoder_joint(e + m.enc_position_joint._emb)
    w = m.decoder(z, c)
    h.claim("decoder output", h.close(out, w))
    h.claim("means from the mean head", h.close(mu, m.mean_head(w)))
    h.claim("scales from the scale head", h.close(sc, m.scale_head(w)))


def process(h):
    key = (2, 2, 4, 2, 2)
    m = dup(BASE[key])
    m.post_embedding_layernorm, m.encoder_sep = Lin(0.75, 0.25), Lin(1.25, -0.5)
    x = h.tensor("x", (1, 2, 3, 4), lo=-70, hi=70)
    p = m.process_previous_latent_q(x)
    h.claim("keeps the quantised latent", h.eq(p.quantized, x))
    t = m.patcher(x, 4).tensor
    t = m.post_embedding_layernorm(torch.nn.functional.linear(t / 35.0, m.encoder_embedding.weight, m.encoder_embedding.bias)) + m.enc_position_sep._emb
    h.claim("embeds, normalises, positions and encodes the encoder windows", h.close(p.processed, m.encoder_sep(t)))


def context(h):
    ctx = h.pyint("context", 1, 4)
    n = h.pyint("previous", 1, ctx)
    m = dup(BASE[(1, 2, 2, 2, 2)])
    m.context_len = ctx
    vals = h.tensor("v", (4,))
    pv = tuple(PreviousLatent(quantized=vals * 0, processed=vals[i]) for i in range(n))
    try:
        r = m._get_encoded_seqs(pv)
    except ValueError:
        h.claim("only context lengths above 3 may refuse a short history", n < ctx and ctx > 3)
        return
    h.claim("context is filled to its length", len(r) == ctx)
    if len(r) == ctx:
        for k in range(ctx):
            src = max(0, k - (ctx - n))
            h.claim("missing latents are replaced by the oldest one, the others keep their order", h.eq(r[k], vals[src]))


def guards(h):
    m = dup(BASE[(1, 2, 2, 2, 2)])
    e = h.tensor("e", (1, 8, 3), lo=-1, hi=1)
    try:
        m._get_transformer_output(encoded_patched=e, latent_q_patched=torch.zeros(1, 4, 1))
        ok = False
    except ValueError:
        ok = True
    h.claim("unprocessed context rejected", ok)
    m._get_transformer_output = predictor(1, 2)
    pv = (PreviousLatent(None, torch.zeros(2, 4, 2)),)
    try:
        m(latent_unquantized=e.reshape(1, 1, 4, 6), previous_latents=pv)
        ok = False
    except ValueError:
        ok = True
    h.claim("context for another latent size rejected", ok)
    for a in ((2, 4), (4, 2)):
        try:
            VCTEntropyModel(num_channels=1, window_size_enc=a[0], window_size_dec=a[1], num_layers_encoder_sep=0, num_layers_encoder_joint=0, num_layers_decoder=0, d_model=2, num_head=1, mlp_expansion=1)
            ok = True
        except ValueError:
            ok = False
        h.claim("encoder windows smaller than decoder windows rejected", ok == (a[0] >= a[1]))


def instances(tier):
    out = []
    A = [((1, 2, 2, 2, 2), 2, 2), ((1, 2, 2, 2, 2), 3, 2), ((2, 2, 2, 2, 2), 2, 2), ((1, 1, 1, 1, 2), 1, 3)]
    if tier == "thorough":
        A += [((1, 2, 4, 2, 2), 4, 4), ((2, 2, 2, 2, 2), 3, 5), ((1, 2, 2, 2, 2), 3, 5)]
    for k, H, W in A:
        out.append({"name": "coding/c%d-w%d-%dx%d" % (k[0], k[3], H, W), "group": "coding", "body": coding(k, H, W), "validate": 2, "budget": 200})
    for s in (0, 1):
        out.append({"name": f"causal-check/{s}", "group": "causal-check", "body": causal_check(s), "validate": 1})
    for k, B, H, W, t in [((1, 2, 2, 2, 2), 1, 3, 2, False), ((2, 2, 4, 2, 2), 2, 2, 2, True), ((2, 3, 2, 2, 2), 1, 2, 3, True)]:
        out.append({"name": "forward/c%d-x%d-b%d-%dx%d" % (k[0], k[1], B, H, W), "group": "forward", "body": forward(k, B, H, W, t), "validate": 2})
    out += [{"name": "compose", "body": compose, "validate": 2}, {"name": "process", "body": process, "validate": 2}, {"name": "context", "body": context, "validate": 2}, {"name": "guards", "body": guards, "validate": 1}]
    return out
