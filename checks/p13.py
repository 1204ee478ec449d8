"""P13: vector-quantisation bottleneck."""
import math
import sys

import torch

from neuralcompression import VqVaeAutoencoderOutput
from neuralcompression.layers import VQBottleneck
from neuralcompression.layers._q_bottleneck import QBottleneck
from vlib.util import sym_int_in

BOUNDS = "every latent and codebook value in [-2,2] (reals), 1..3 codewords of length 1..2, up to 2 vectors (2 images or 2 positions), normalised and plain codebooks, every uniform draw of the probabilistic mode; hit counters: every history of up to 3 calls; coding cost: N in [1,2], H, W in [1,6] (thorough [1,4], [1,16]), codebook sizes 2, 16, 1024"
OUTSIDE = "which of several equally near codewords is taken; float rounding; codewords of norm below 1e-3 when normalised; more than 3 codewords for the value claims"
ASSUMPTIONS = ["sqrt axiomatised by its square", "each torch.rand draw is any value of [0,1)"]


def mk(h, K, D, norm, cls=QBottleneck):
    m = QBottleneck([K], [D], normalize_codebook=norm) if cls is QBottleneck else VQBottleneck(K, D)
    c = h.tensor("codebook", (K, D), dtype=torch.float64, lo=-2, hi=2)
    if norm:
        for k in range(K):
            h.assume((c[k] ** 2).sum() >= 1e-2)
    m.codebooks[0] = torch.nn.Parameter(c.clone())
    if norm:
        c = torch.stack([c[k] / torch.sqrt((c[k] ** 2).sum()) for k in range(K)])
    return m, c


def d2(a, b):
    return ((a - b) ** 2).sum()


def pick(ind, rows):
    """rows[ind] with a symbolic index"""
    r = rows[0]
    for k in range(1, len(rows)):
        r = torch.where(ind == k, rows[k], r)
    return r


def check_quant(h, x, c, latent, indices, distances):
    B, D, H, W = x.shape
    K = c.shape[0]
    h.claim("latent shape kept", tuple(latent.shape) == tuple(x.shape))
    h.claim("one index per vector", indices.numel() == B * H * W)
    idx = indices.reshape(-1)
    n = 0
    for b in range(B):
        for i in range(H):
            for j in range(W):
                v = x[b, :, i, j].detach()
                k = idx[n]
                h.claim("index is a codeword index", h.all_((k >= 0) & (k < K)))
                mine = pick(k, [d2(v, c[q]) for q in range(K)])
                for q in range(K):
                    h.claim("no codeword is nearer than the chosen one", h.le(mine, d2(v, c[q]) + (0.0 if h.symbolic else 1e-9)))
                h.claim("output is the chosen codeword", h.close(latent[b, :, i, j], pick(k, [c[q] for q in range(K)])))
                if distances is not None:
                    h.claim("distances are the squared Euclidean distances", h.close(distances[n], torch.stack([d2(v, c[q]) for q in range(K)])))
                n += 1
    return [int(t) for t in idx] if not h.symbolic else None


def quant(K, D, shape, norm):
    def body(h):
        x = h.tensor("x", (shape[0], D) + shape[1:], dtype=torch.float64, lo=-2, hi=2)
        m, c = mk(h, K, D, norm)
        o = m.quantize_vectors(x, m.codebooks[0])
        check_quant(h, x, c, o.latent, o.indices, o.distances)
        h.claim("the prequantized latent is the input", h.eq(o.prequantized_latent, x))
        h.claim("commitment and embedding loss are the mean squared quantisation error", h.close(torch.stack([o.commitment_loss.detach(), o.embedding_loss.detach()]), torch.stack([((o.latent - x) ** 2).mean()] * 2).detach()))
    return body


def grads(K, D, norm):
    def body(h):
        x = h.tensor("x", (1, D, 1, 2), dtype=torch.float64, lo=-2, hi=2, grad=True)
        u = h.tensor("u", (1, D, 1, 2), dtype=torch.float64, lo=-2, hi=2)
        m, c = mk(h, K, D, norm)
        o = m.quantize_vectors(x, m.codebooks[0])
        gx, gc = torch.autograd.grad((o.latent * u).sum(), [x, m.codebooks[0]], retain_graph=True, allow_unused=True)
        h.claim("the quantiser passes gradients straight through", h.eq(gx, u))
        h.claim("the quantised latent sends no gradient into the codebook", gc is None or h.eq(gc, torch.zeros_like(gc)))
        gx, gc = torch.autograd.grad(o.commitment_loss, [x, m.codebooks[0]], retain_graph=True, allow_unused=True)
        n = x.numel()
        xd, ld = x.detach(), o.latent.detach()
        h.claim("the commitment loss pulls the encoder towards the codeword", h.close(gx, 2 * (xd - ld) / n))
        h.claim("the commitment loss leaves the codebook alone", gc is None or h.eq(gc, torch.zeros_like(gc)))
        gx, gc = torch.autograd.grad(o.embedding_loss, [x, m.codebooks[0]], allow_unused=True)
        h.claim("the embedding loss leaves the encoder alone", gx is None or h.eq(gx, torch.zeros_like(gx)))
        if not norm:
            want = []
            for k in range(K):
                t = 0
                for j in range(2):
                    hit = (o.indices.reshape(-1)[j] == k).to(torch.float64)
                    t = t + hit * 2 * (ld[0, :, 0, j] - xd[0, :, 0, j]) / n
                want.append(t)
            h.claim("the embedding loss pulls the used codewords towards their vectors", h.close(gc, torch.stack(want)))
    return body


def prob(K, D, shape):
    def body(h):
        x = h.tensor("x", (shape[0], D) + shape[1:], dtype=torch.float64, lo=-2, hi=2)
        m, c = mk(h, K, D, False)
        n0 = len(h.draws_so_far()) if h.symbolic else 0
        o = m.quantize_vectors(x, m.codebooks[0], probabilistic=True)
        dr = h.draws_so_far()[n0:]
        idx = o.indices.reshape(-1)
        vecs = x.permute(0, 2, 3, 1).reshape(-1, D)
        lat = o.latent.permute(0, 2, 3, 1).reshape(-1, D)
        for n in range(vecs.shape[0]):
            k = idx[n]
            h.claim("index is a codeword index", h.all_((k >= 0) & (k < K)))
            h.claim("output is the chosen codeword", h.close(lat[n], pick(k, [c[q] for q in range(K)])))
            if len(dr) != vecs.shape[0]:
                continue
            w = torch.stack([1 / (d2(vecs[n], c[q]) + 1e-7) for q in range(K)])
            p = w / w.sum()
            cum = [p[:q].sum() for q in range(K + 1)]
            r = dr[n]
            e = 0.0 if h.symbolic else 1e-6
            h.claim("a codeword is drawn with probability proportional to its inverse squared distance", h.all_((pick(k, cum[:K]) <= r + e) & (r <= pick(k, cum[1:]) + e)))
    return body


def bottleneck(K, D, shape):
    def body(h):
        x = h.tensor("x", (shape[0], D) + shape[1:], dtype=torch.float64, lo=-2, hi=2)
        m, c = mk(h, K, D, True, VQBottleneck)
        img = h.tensor("img", (1,), dtype=torch.float64)
        o = m(VqVaeAutoencoderOutput(image=img, latent=x))
        check_quant(h, x, c, o.latent, o.indices, o.quantize_distances)
        h.claim("other fields are kept", o.image is img)
        h.claim("coding cost is the index bits in whole bytes", o.num_bytes == int(shape[0] * shape[1] * shape[2] * math.log2(K) / 8))
        try:
            m(VqVaeAutoencoderOutput(image=img))
            h.claim("missing latent rejected", False)
        except ValueError:
            h.claim("missing latent rejected", True)
    return body


def history(K, calls):
    """hit counters after any history: number of times each codeword was chosen since the last reset"""
    def body(h):
        m = VQBottleneck(K, 1) if K < 3 else VQBottleneck(K, 2)
        D = 1 if K < 3 else 2
        vals = [[1.0], [-1.0]] if K < 3 else [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0]]
        m.codebooks[0] = torch.nn.Parameter(torch.tensor(vals, dtype=torch.float64))
        cnt = [0] * K
        for n in range(calls):
            x = h.tensor("x%d" % n, (1, D, 1, 2), dtype=torch.float64, lo=-2, hi=2)
            o = m(VqVaeAutoencoderOutput(latent=x))
            for j in range(2):
                for k in range(K):
                    cnt[k] = cnt[k] + (o.indices.reshape(-1)[j] == k).to(torch.int64)
            h.claim("counters count the chosen codewords", h.eq(m.codebook_hits_0, torch.stack(cnt)))
            if n < calls - 1 and h.pybool("reset%d" % n):
                m.reset_hits()
                cnt = [0] * K
                h.claim("reset clears the counters", h.eq(m.codebook_hits_0, torch.zeros(K, dtype=torch.int64)))
        if any(isinstance(v, int) for v in cnt):
            return
        m.update_metrics()
        used = sum((v > 0).to(torch.float64) for v in cnt) / K
        h.claim("share of codewords used", h.close(m.percentage_hits[0], used))
        mx = cnt[0]
        for v in cnt[1:]:
            mx = torch.where(v > mx, v, mx)
        h.claim("largest counter", h.close(m.max_hits[0], mx.to(torch.float64)))
    return body


def levels(h):
    """several codebooks: each has its own counters and metrics"""
    m = QBottleneck([2, 3], [1, 2])
    a = h.tensor("a", (2,), dtype=torch.int64, lo=0, hi=4)
    b = h.tensor("b", (3,), dtype=torch.int64, lo=0, hi=4)
    h.assume((a.sum() > 0) & (b.sum() > 0))
    m.codebook_hits_0, m.codebook_hits_1 = a.clone(), b.clone()
    m.update_metrics()
    for l, v in ((0, a), (1, b)):
        h.claim("share of codewords used, per level", h.close(m.percentage_hits[l], (v > 0).to(torch.float64).sum() / v.numel()))
        h.claim("largest counter, per level", h.close(m.max_hits[l], v.max().to(torch.float64)))
    m.reset_hits()
    h.claim("reset clears every level", h.eq(torch.cat([m.codebook_hits_0, m.codebook_hits_1]), torch.zeros(5, dtype=torch.int64)))


def perplexity(hits):
    def body(h):
        """perplexity of concrete counters (vacuous in the solver; decided by evaluation)"""
        m = QBottleneck([len(hits)], [1])
        s = h.pyint("scale", 1, 4)
        m.codebook_hits_0 = torch.tensor(hits, dtype=torch.int64) * s
        m.update_metrics()
        p = [v / sum(hits) for v in hits]
        want = 2 ** sum(-v * math.log2(v) for v in p if v)
        got = float(m.perplexities[0])
        h.claim("perplexity is 2 to the entropy", abs(got - want) < 1e-4 * want)
    return body


def init(h):
    for K, D in ((2, 3), (4, 2)):
        m = QBottleneck([K], [D])
        c = m.codebooks[0].detach()
        h.claim("codebook shape", tuple(c.shape) == (K, D))
        h.claim("uniform initial codewords lie between -1/size and 1/length", h.all_((c >= -1.0 / K) & (c <= 1.0 / D)))
    try:
        QBottleneck([2], [2], init_distribution="other")
        h.claim("unknown initial distribution rejected", False)
    except ValueError:
        h.claim("unknown initial distribution rejected", True)


def cost(K):
    """coding cost for every latent size"""
    def body(h):
        N, H, W = h.dim("N"), h.dim("H"), h.dim("W")
        sym_int_in(sys.modules["neuralcompression.layers._vq_bottleneck"])
        m = VQBottleneck(K, 3)
        o = m(VqVaeAutoencoderOutput(latent=h.image(N, 3, H, W)))
        bits = math.log2(K)
        h.claim_eq("latent shape", o.latent.shape, (N, 3, H, W))
        if bits == int(bits):
            h.claim_eq("coding cost = index bits / 8", o.num_bytes, N * H * W * int(bits) // 8)
    return body


def instances(tier):
    out = []
    q = [(2, 1, (1, 1, 2), False), (3, 1, (2, 1, 1), False), (3, 2, (1, 1, 1), False), (2, 2, (1, 2, 1), False), (2, 1, (1, 1, 1), True), (2, 2, (1, 1, 1), True), (1, 2, (1, 1, 2), True)]
    if tier != "quick":
        q += [(4, 2, (1, 1, 1), False), (3, 2, (1, 2, 1), False), (3, 2, (1, 1, 1), True), (2, 3, (2, 1, 1), False)]
    for K, D, s, nrm in q:
        out.append(dict(name="nearest/%dx%d/%s/%s" % (K, D, "x".join(map(str, s)), "norm" if nrm else "plain"), group="nearest/%s" % nrm, body=quant(K, D, s, nrm), budget=150, timeout=40))
    for K, D, nrm in ((2, 1, False), (2, 2, False), (2, 1, True)):
        out.append(dict(name="gradients/%dx%d/%s" % (K, D, nrm), group="gradients", body=grads(K, D, nrm), budget=150, timeout=40))
    for K, D, s in ((2, 1, (1, 1, 1)), (3, 1, (1, 1, 1)), (2, 2, (1, 1, 2))):
        out.append(dict(name="probabilistic/%dx%d" % (K, D), group="probabilistic", body=prob(K, D, s), budget=150, timeout=40))
    out.append(dict(name="bottleneck/2x1", group="bottleneck", body=bottleneck(2, 1, (2, 2, 1)), budget=150, timeout=40))
    out.append(dict(name="bottleneck/3x1", group="bottleneck", body=bottleneck(3, 1, (1, 1, 2)), budget=150, timeout=40))
    out.append(dict(name="history/2", group="history", body=history(2, 3), budget=150, timeout=40))
    out.append(dict(name="history/3", group="history", body=history(3, 2), budget=150, timeout=40))
    out.append(dict(name="levels", body=levels, budget=100))
    out.append(dict(name="perplexity", body=perplexity((3, 1, 0, 4)), budget=60))
    out.append(dict(name="init", body=init, budget=60))
    for K in (2, 16, 1024):
        a, b = (2, 6) if tier == "quick" else (4, 16)
        out.append(dict(name="cost/%d" % K, group="cost", kind="shape", body=cost(K), domain={"N": (1, a), "H": (1, b), "W": (1, b)}, budget=60 if tier == "quick" else 600))
    return out
