"""P41: evaluation scripts report true averages over all samples; image logs show what was coded."""
import os
import types

import numpy as np
import torch
from torch import nn
from torch.utils._python_dispatch import _disable_current_modes

from vlib import elem as E
from vlib import symten as T
from vlib.objarr import Num, OArr, oarr, val, vals

import checks.p34 as P  # stand-ins for packages that are not installed
import checks.p40 as Q

BOUNDS = ("variational bound: 1..3 processes, batches of 1..2 samples, 1..3 timesteps, 1..3 batches, every value of every term; folder evaluation: 1..3 images of 2x2..3x2 pixels, every decoded pixel in [-1,2], every coded size and metric value; plots of 1..3 x 1..3 values; "
          "image logs: 1..2 clips of 2..3 frames of 3x2x1 pixels, every value in [-1,2]")
OUTSIDE = "the metrics (P10, P11, P18, P19), the diffusion's own bound, wandb, torchvision's grid, processes with batches of different sizes, float rounding"
ASSUMPTIONS = ["torch.distributed is a stand-in that combines the contributions of all processes", "models, metrics, plotly and wandb are recording stand-ins", "sqrt axiomatised"]

VLB = Q.script("p41_vlb", "bits_back_diffusion", "compute_vlb.py")
EF = Q.script("p41_eval", "illm", "eval_folder_example.py")
SU, ILLM, DVC, VCT = P.SU, Q.ILLM, Q.DVC, Q.VCT
Cfg = P.Cfg
import _utils as DU  # noqa: E402  the video codec's stages


def same(h, got, want, msg):
    got, want = vals(got), vals(want)
    h.claim(msg, len(got) == len(want))
    if len(got) == len(want):
        h.claim(msg, h.close(tens(h, got), tens(h, want)))


def tens(h, xs):
    return P._t(h, list(xs))


# ----------------------------------------------------------------- variational bound
TERMS = ["vb", "mse", "xstart_mse"]


def vlb(ws, b, steps, batches):
    def body(h):
        data = []
        for r in range(ws):
            data.append([])
            for k in range(batches):
                d = {t: h.tensor("%s_%d_%d" % (t, r, k), (b, steps), torch.float32, lo=0, hi=4) for t in TERMS}
                d["prior_bpd"] = h.tensor("p_%d_%d" % (r, k), (b,), torch.float32, lo=0, hi=4)
                d["total_bpd"] = h.tensor("t_%d_%d" % (r, k), (b,), torch.float32, lo=0, hi=4)
                data[-1].append(d)
        short = h.pyint("short", 0, ws * b - 1)  # samples asked for need not fill the last batch
        old = (T.SymTensor.item, getattr(T.SymTensor, "numpy", None), np.savez, torch.distributed.all_gather, torch.distributed.all_reduce, torch.distributed.get_world_size, torch.distributed.get_rank, torch.distributed.barrier,
               VLB.setup, VLB.plot_evolution, P.imp.logger.logkvs, P.imp.logger.dumpkvs)
        T.SymTensor.numpy = lambda self, **k: oarr(self)
        T.SymTensor.item = lambda self: oarr(self).reshape(-1)[0]
        logs, saves, asked, plots, sent = [], {}, [], [], {}
        try:
            def run(rank, final):
                logs.clear()
                asked.clear()
                n = {"g": 0, "r": 0}
                mine = sent.setdefault(rank, {"g": [], "r": []})

                def all_gather(out, x, *a, **k):
                    i = n["g"]
                    n["g"] += 1
                    if not final:
                        mine["g"].append(x)
                        return
                    for r in range(ws):
                        out[r] = x if r == rank else sent[r]["g"][i]  # a list of results, as handed in

                def all_reduce(x, op=None, *a, **k):
                    i = n["r"]
                    n["r"] += 1
                    if not final:
                        mine["r"].append(x.clone())
                        return
                    for r in range(ws):
                        if r != rank:
                            x.add_(sent[r]["r"][i])
                torch.distributed.all_gather, torch.distributed.all_reduce = all_gather, all_reduce
                torch.distributed.get_world_size, torch.distributed.get_rank, torch.distributed.barrier = lambda *a: ws, lambda *a: rank, lambda *a: None
                P.imp.dist_util.dev = lambda: torch.device("cpu")
                P.imp.logger.logkvs = lambda d: logs.append(dict(d))
                P.imp.logger.dumpkvs = lambda: None
                np.savez = lambda path, **k: saves.__setitem__(os.path.basename(str(path)), {a: np.array(v, dtype=object).view(OArr) if h.symbolic else np.array(v) for a, v in k.items()})
                it = iter(range(batches))
                batch = [(torch.zeros(b, 1), {"y": torch.full((b,), k)}) for k in it]

                class Diff:
                    num_timesteps = steps

                    def calc_bpd_loop(self, model, x, clip_denoised=True, model_kwargs=None):
                        asked.append((model, x, clip_denoised, model_kwargs))
                        return dict(data[rank][len(asked) - 1])
                VLB.setup = lambda cfg, *a, **k: ("model", Diff(), iter(batch))
                VLB.plot_evolution = lambda a, **k: plots.append((a, k)) or len(plots)
                P.LOG["dir"] = "nowhere"
                VLB.main(Cfg(evaluator=Cfg(model_path="m", num_samples=batches * b * ws - short, clip_denoised=clip)))
            clip = h.pybool("clip")
            for r in range(1, ws):
                run(r, False)
                h.claim("only the first process saves", not saves)
            run(0, True)
        finally:
            (T.SymTensor.item, num, np.savez, torch.distributed.all_gather, torch.distributed.all_reduce, torch.distributed.get_world_size, torch.distributed.get_rank, torch.distributed.barrier,
             VLB.setup, VLB.plot_evolution, P.imp.logger.logkvs, P.imp.logger.dumpkvs) = old
            if num is None:
                del T.SymTensor.numpy
            else:
                T.SymTensor.numpy = num
        h.claim("as many batches as needed for the requested samples", len(asked) == batches and len(logs) == batches)
        h.claim("the model is asked with the data's own labels and the clipping option", all(a[0] == "model" and a[2] == clip and int(a[3]["y"][0]) == k for k, a in enumerate(asked)))
        for k, d in enumerate(logs[:batches]):
            h.claim("samples of all processes are counted", d["samples"] == (k + 1) * b * ws)
            tot = torch.cat([data[r][j]["total_bpd"] for r in range(ws) for j in range(k + 1)])
            same(h, [val(d["total_bpd"])], oarr(tot.mean()), "the reported rate is the mean over all samples so far")
        h.claim("all terms are saved", set(saves) == {t + "-terms.npz" for t in TERMS})
        for t in TERMS:
            if t + "-terms.npz" not in saves:
                continue
            rows = []
            for k in range(batches):
                for r in range(ws):
                    x = data[r][k][t]
                    if t == "vb":
                        x = torch.cat([data[r][k]["prior_bpd"].unsqueeze(-1), x], dim=1)
                    rows.append(x)
            x = torch.cat(rows).flip(1)  # the first step first
            s = saves[t + "-terms.npz"]
            n = x.shape[0]
            same(h, s["mean"], oarr(x.mean(0)), "mean of each term over all samples, first step first")
            same(h, s["min"], oarr(x.min(0).values), "smallest")
            same(h, s["max"], oarr(x.max(0).values), "largest")
            d = vals(s["stdd"])
            var = oarr(((x - x.mean(0, keepdim=True)) ** 2).sum(0) / n)
            same(h, [E.mul(v, v) if h.symbolic else v * v for v in d], var, "spread")
        h.claim("each is plotted", len(plots) == len(TERMS))
    return body


# ----------------------------------------------------------------- plots
def plot(shape):
    def body(h):
        x = oarr(h.tensor("x", shape, torch.float64, lo=-4, hi=4))
        P.pl.graph_objs.Scatter = lambda **k: k
        got = []

        class Fig:
            def __init__(self, data):
                got.extend(data)

            def update_layout(self, **k):
                self.k = k
        P.pl.graph_objs.Figure = Fig
        f = SU.plot_evolution(x, title="t")
        h.claim("titles are passed on", f.k.get("title") == "t")
        by = {g["name"]: g for g in got}
        n = shape[-1]
        if len(shape) == 1:
            h.claim("a single curve", set(by) == {"mean"})
            same(h, by["mean"]["y"], x, "the data itself")
            return
        h.claim("mean, spread and range", set(by) == {"mean", "stdd", "range"})
        m = sum(x[i] for i in range(shape[0])) / shape[0]
        same(h, by["mean"]["y"], m, "the mean over samples")
        h.claim("over the steps", list(by["mean"]["x"]) == list(range(n)))
        for k in ("stdd", "range"):
            h.claim("bands go forth and back", [int(i) for i in by[k]["x"]] == list(range(n)) + list(range(n))[::-1] and len(by[k]["y"]) == 2 * n)
        b = by["stdd"]["y"]
        for i in range(n):
            up, lo = val(b[i]), val(b[2 * n - 1 - i])
            same(h, [E.add(up, lo) if h.symbolic else up + lo], [E.mul(2, val(m[i])) if h.symbolic else 2 * m[i]], "the band is centred on the mean")
            w = E.sub(up, lo) if h.symbolic else up - lo
            v = sum((x[j, i] - m[i]) * (x[j, i] - m[i]) for j in range(shape[0])) * 4 / shape[0]
            same(h, [E.mul(w, w) if h.symbolic else w * w], [val(v)], "and one standard deviation wide to each side")
            h.claim("the right way up", (E.le(0, w)) if h.symbolic else w >= -1e-9)
            c = by["range"]["y"]
            hi, lo = val(c[i]), val(c[2 * n - 1 - i])
            same(h, [hi], [max(x[:, i]) if not h.symbolic else val(OArr.of(np.asarray(x)[:, i]).max())], "up to the largest")
            same(h, [lo], [min(x[:, i]) if not h.symbolic else val(OArr.of(np.asarray(x)[:, i]).min())], "down to the smallest")
    return body


# ----------------------------------------------------------------- folder evaluation
TOKENS = {}


def fmt(self, spec=""):
    TOKENS[str(id(self))] = self
    return str(id(self))


Num.__format__ = fmt


class Torch:
    """torch with the GPU replaced by the CPU"""
    device = staticmethod(lambda *a: torch.device("cpu"))

    def __getattr__(self, k):
        return getattr(torch, k)


def folder(n, hw):
    def body(h):
        from PIL import Image
        sizes = [oarr(h.tensor("n%d" % i, (), torch.int64, lo=0, hi=1 << 20))[()] for i in range(n)]
        dec = [h.tensor("d%d" % i, (1, 3) + hw, torch.float32, lo=-1, hi=2) for i in range(n)]
        psnrs = [oarr(h.tensor("q%d" % i, (), torch.float64, lo=0, hi=64))[()] for i in range(n)]
        finals = {k: oarr(h.tensor(k, (), torch.float64, lo=0, hi=1))[()] for k in ("ms", "lp", "fid")}
        TOKENS.clear()
        events = []

        class Model:
            def to(self, d):
                return self

            def eval(self):
                events.append("eval")
                return self

            def update(self, *a, **k):
                events.append("update")

            def update_tensor_devices(self, w):
                events.append(("devices", w))

            def compress(self, x, force_cpu=True):
                events.append(("compress", x, force_cpu))
                return ("packed", which(x))

            def decompress(self, c, force_cpu=True):
                events.append(("decompress", c, force_cpu))
                return dec[c[1]]

        def which(x):
            with _disable_current_modes():
                return next(i for i in range(n) if torch.equal(torch.as_tensor(x), imgs[i]))

        class Metric:
            def __init__(self, name, **k):
                self.name, self.k, self.seen = name, k, []

            def to(self, d):
                return self

            def __call__(self, a, b):
                self.seen.append((a, b))

            update = __call__

            def compute(self):
                return finals[self.name]
        made = {}

        def metric(name):
            def f(**k):
                made[name] = Metric(name, **k)
                return made[name]
            return f
        fids, ps, out = [], [], []
        with _disable_current_modes():
            imgs = [torch.from_numpy(((np.arange(hw[0] * hw[1] * 3).reshape(1, hw[0], hw[1], 3) * 7 + 31 * i + 5) % 256).astype(np.uint8)).permute(0, 3, 1, 2).float() / 255 for i in range(n)]
        with Q.Scratch() as s:
            with _disable_current_modes():
                for i in range(n):
                    a = (imgs[i][0] * 255).round().to(torch.uint8).permute(1, 2, 0).numpy()
                    Image.fromarray(a).save(s.dir / ("im%d.png" % i))
                (s.dir / "notes.txt").write_text("x")
            old = {k: EF.__dict__.get(k) for k in ("torch", "MultiscaleStructuralSimilarity", "LearnedPerceptualImagePatchSimilarity", "FrechetInceptionDistance", "calc_psnr", "pickle_size_of", "update_patch_fid", "tqdm", "ToTensor")}
            hub = torch.hub.load
            import sys
            argv = sys.argv
            EF.torch, EF.float, EF.print = Torch(), lambda x: x, lambda *a, **k: out.append(" ".join(str(q) for q in a))
            EF.tqdm = lambda x, **k: x
            EF.MultiscaleStructuralSimilarity, EF.LearnedPerceptualImagePatchSimilarity, EF.FrechetInceptionDistance = metric("ms"), metric("lp"), metric("fid")
            EF.calc_psnr = lambda a, b: ps.append((a, b)) or psnrs[len(ps) - 1]
            EF.pickle_size_of = lambda c: sizes[c[1]] if c[0] == "packed" else None
            EF.update_patch_fid = lambda a, b, m, *x, **k: fids.append((a, b, m))

            class Tot:
                def __call__(self, im):
                    with _disable_current_modes():
                        return torch.from_numpy(np.asarray(im).copy()).permute(2, 0, 1).float() / 255
            EF.ToTensor = Tot
            torch.hub.load = lambda *a, **k: Model()
            sys.argv = ["eval", str(s.dir)]
            try:
                EF.main()
            finally:
                torch.hub.load, sys.argv = hub, argv
                EF.__dict__.update(old)
                del EF.float, EF.print
        comp = [e for e in events if isinstance(e, tuple) and e[0] == "compress"]
        order = [which(e[1]) for e in comp]
        h.claim("every image of the folder is coded once", sorted(order) == list(range(n)))
        first = events.index(comp[0]) if comp else 0
        h.claim("by a model in evaluation mode with its tables built", "eval" in events[:first] and "update" in events[:first])
        res = {}
        for line in out:
            if ": " in line:
                k, v = line.split(": ", 1)
                res[k] = TOKENS[v] if v in TOKENS else (Num(E.to_frac(float(v))) if h.symbolic else float(v))
        h.claim("all results are printed", set(res) >= {"Rate", "PSNR", "MS-SSIM", "LPIPS", "FID"})
        rate = sum(sizes[i] * 8 for i in range(n)) / (n * hw[0] * hw[1])
        same(h, [val(res["Rate"])], [val(rate)], "rate: mean bits per pixel")
        same(h, [val(res["PSNR"])], [val(sum(psnrs) / n)], "PSNR: mean over images")
        for k, nm in (("ms", "MS-SSIM"), ("lp", "LPIPS"), ("fid", "FID")):
            same(h, [val(res[nm])], [val(finals[k])], "the metric's own value")
        h.claim("metrics are set up for the range of their images", made["ms"].k.get("data_range") == 255.0 and made["lp"].k.get("normalize") is True)
        h.claim("every metric sees every image once", len(ps) == len(fids) == len(made["ms"].seen) == len(made["lp"].seen) == n)
        for k, i in enumerate(order):
            c = dec[i].clamp(0.0, 1.0)
            by = torch.floor(c * 255 + 0.5)
            with _disable_current_modes():
                ob = torch.floor(imgs[i] * 255 + 0.5)
            for got in (ps[k], made["ms"].seen[k]):
                a, b = got
                if not isinstance(a, T.SymTensor) if h.symbolic else torch.equal(a.float(), ob) and not torch.equal(b.float(), ob):
                    a, b = b, a
                h.claim("decoded image as bytes", h.eq(a.to(torch.float32), by))
                h.claim("original as bytes", h.eq(b.to(torch.float32), ob))
            a, b, m = fids[k]
            h.claim("FID: originals are the real images, as they are", m is made["fid"] and h_eq(h, a, imgs[i]))
            h.claim("FID: the decoded ones in [0,1]", h.close(b, c))
            a, b = made["lp"].seen[k]
            if not isinstance(a, T.SymTensor) if h.symbolic else torch.equal(a, imgs[i]) and not torch.equal(b, imgs[i]):
                a, b = b, a
            h.claim("LPIPS: decoded", h.close(a, c))
            h.claim("LPIPS: original", h_eq(h, b, imgs[i]))
    return body


def h_eq(h, a, b):
    with _disable_current_modes():
        return not isinstance(a, T.SymTensor) and a.shape == b.shape and torch.allclose(a, b, atol=1e-6)


def rescale(h):
    x = h.tensor("x", (3,), torch.float32, lo=0, hi=1)
    back = h.pybool("back")
    y = EF.rescale_image(x, back_to_float=back)
    h.claim("bytes, or floats with the values of bytes", y.dtype == (torch.float32 if back else torch.uint8))
    h.claim("the nearest byte", h.eq(y.to(torch.float32), torch.floor(x * 255 + 0.5)))


# ----------------------------------------------------------------- image logs
class Lg:
    def __init__(self):
        self.out = []
        self.logger = types.SimpleNamespace(experiment=types.SimpleNamespace(log=lambda d, **k: self.out.append(d)))
        self.global_step = 17


class Img:
    def __init__(self, x, caption=None, **k):
        self.x = x


def mosaic(b, t, withflow):
    def body(h):
        import sys
        sys.modules["wandb"].Image = Img
        C, H, W = 3, 2, 1
        clip = h.tensor("clip", (b, t, C, H, W), torch.float32, lo=0, hi=1)
        ifr = h.tensor("ifr", (b, C, H, W), torch.float32, lo=0, hi=1)
        est = [h.tensor("e%d" % i, (b, C, H, W), torch.float32, lo=-1, hi=2) for i in range(t - 1)]
        flow = [h.tensor("f%d" % i, (b, 2, H, W), torch.float32, lo=-1, hi=2) if withflow else None for i in range(t - 1)]
        seen = []

        class Mod:
            device, dtype, num_pframes, training_stage, global_step = torch.device("cpu"), torch.float32, t - 1, "3", 17

            def compress_iframe(self, batch):
                out = batch.clone()
                out[:, 0] = ifr
                return out, 0.5
        m = Mod()

        def loss(i1, i2):
            k = len(seen)
            seen.append((i1, i2))
            return None, DU.OutputTensors(flow[k], i1, i2, est[k])
        m.model = types.SimpleNamespace(compute_batch_loss=loss)
        was = DVC.optical_flow_to_color
        DVC.optical_flow_to_color = lambda f: torch.cat([f, f[:, :1] + f[:, 1:]], dim=1)
        tr = Lg()
        try:
            DVC.WandbImageCallback(clip).on_validation_end(tr, m)
        finally:
            DVC.optical_flow_to_color = was
        h.claim("every P-frame once", len(seen) == t - 1)
        prev = ifr
        for k, (a, c) in enumerate(seen):
            h.claim("each frame is predicted from the decoded one before", h.eq(a, prev))
            h.claim("in order", h.eq(c, clip[:, k + 1]))
            prev = est[k]
        got = {}
        for d in tr.out:
            for k, v in d.items():
                if isinstance(v, Img):
                    got[k.rsplit("/", 1)[1]] = v.x
            h.claim("under the training step", d.get("global_step") == 17)
        h.claim("what the stage produces is logged", set(got) == {"image1", "image2", "image2_est"} | ({"flow"} if withflow else set()))

        def tile(frames):
            return torch.cat([torch.cat([f[i] for f in frames], dim=-1) for i in range(b)], dim=-2)
        want = {"image1": [ifr] + est[:-1], "image2": [clip[:, k + 1] for k in range(t - 1)], "image2_est": est}
        for k, fr in want.items():
            if k in got:
                h.claim("clips from top to bottom, time from left to right, clipped to [0,1]", h.eq(got[k], tile(fr).clamp(0, 1)))
        if withflow and "flow" in got:
            f = tile(flow)
            h.claim("flow in colour", h.close(got["flow"], torch.cat([f, f[:1] + f[1:]], dim=0).clamp(0, 1)))
    return body


def pairs(which):
    """image training and video transformer: inputs beside reconstructions"""
    def body(h):
        import sys
        sys.modules["wandb"].Image = Img
        M = ILLM if which == "image" else VCT
        shape = (2, 3, 2, 1) if which == "image" else (1, 2, 3, 2, 1)
        xs = [h.tensor("x%d" % i, shape, torch.float32, lo=0, hi=1) for i in range(2)]
        ys = [h.tensor("y%d" % i, shape, torch.float32, lo=-1, hi=2) for i in range(2)]
        was = M.make_grid
        M.make_grid = lambda x, **k: x

        class Mod(nn.Module):
            device, dtype, global_step = torch.device("cpu"), torch.float32, 17

            def forward(self, b):
                x = b if which == "image" else b.video_tensor
                for p, y in zip(xs, ys):
                    if x is p or (isinstance(x, T.SymTensor) and x.elems().reshape(-1)[0].eq(p.elems().reshape(-1)[0])) or (not h.symbolic and torch.equal(x, p)):
                        return types.SimpleNamespace(image=y) if which == "image" else (y, [])
        tr = Lg()
        try:
            with _disable_current_modes():
                m = Mod()
            cb = M.WandbImageCallback(*(xs if which == "image" else [VCT.VideoDataset(video_tensor=x) for x in xs]))
            cb.on_validation_end(tr, m)
        finally:
            M.make_grid = was
        got = {}
        for d in tr.out:
            for k, v in d.items():
                if isinstance(v, Img):
                    got[k] = v.x
        h.claim("both batches are logged", set(got) == {a + "/" + k for a in ("train_images", "eval_images") for k in ("image", "image_compressed")})
        for i, a in enumerate(("train_images", "eval_images")):
            pick = (lambda t: t) if which == "image" else (lambda t: t[0])
            if a + "/image" in got:
                h.claim("inputs", h.eq(got[a + "/image"], pick(xs[i])))
                h.claim("beside their own reconstructions, clipped to [0,1]", h.eq(got[a + "/image_compressed"], pick(ys[i]).clamp(0, 1)))
    return body


def instances(tier):
    deep = tier != "quick"
    out = []
    for a in [(1, 1, 1, 1), (1, 2, 3, 1), (2, 1, 2, 1), (2, 2, 1, 2), (1, 1, 2, 3)] + ([(3, 1, 2, 2), (2, 2, 2, 2), (3, 2, 1, 1)] if deep else []):
        out.append({"name": "bound/%dx%dx%dx%d" % a, "group": "bound", "body": vlb(*a), "validate": 2, "max_paths": 4000, "budget": 300})
    for s in [(1,), (3,), (1, 2), (2, 2), (2, 3), (3, 1)] + ([(3, 3)] if deep else []):
        out.append({"name": "plot/%s" % "x".join(map(str, s)), "group": "plot", "body": plot(s), "validate": 2})
    for n, hw in [(1, (2, 2)), (2, (3, 2)), (3, (2, 2))]:
        out.append({"name": "folder/%d" % n, "group": "folder", "body": folder(n, hw), "validate": 2, "max_paths": 4000})
    out.append({"name": "rescale", "body": rescale, "validate": 2})
    for b, t, f in [(1, 2, True), (2, 3, True), (2, 2, False), (1, 3, False)]:
        out.append({"name": "mosaic/%d-%d%s" % (b, t, "-flow" if f else ""), "group": "mosaic", "body": mosaic(b, t, f), "validate": 2})
    for w in ("image", "transformer"):
        out.append({"name": "pairs/" + w, "group": "pairs", "body": pairs(w), "validate": 2})
    return out
