"""P39: data modules: the right split to the right loader, every item once, clips laid out as the models expect."""
import os
import sys
import types

import torch
from torch import nn  # noqa: F401
from torch.utils._python_dispatch import _disable_current_modes

from vlib.harness import REPO

import checks.p34 as P  # stand-ins for packages that are not installed

BOUNDS = "data sets of 1..4 items, batch sizes 1..3, every pixel; clips of 1..4 frames x 3 channels x 2x2..3x3 pixels with every value; every number of frames per group in [-1,9], every number of UVG frames in 1..40 and 295..305"
OUTSIDE = "decoding of videos, other shuffles than rotations and reversals, the random training crops and flips (torchvision's), loading with worker processes, the data sets themselves (P33)"
ASSUMPTIONS = ["pytorch_lightning and lightning are not installed: the data-module base class is empty", "pytorchvideo's and torchvision's transforms run for real (torchvision's private functional module under its old name); pytorchvideo's Kinetics data set is a recording stand-in"]


class Base:
    def __init__(self, *a, **k):
        pass


P.mod("pytorch_lightning", LightningModule=nn.Module, LightningDataModule=Base)
lt = P.mod("lightning")
lt.pytorch = P.mod("lightning.pytorch", LightningModule=nn.Module, LightningDataModule=Base)
import torchvision  # noqa: E402
import torchvision.transforms._functional_tensor as ft  # noqa: E402

sys.modules.setdefault("torchvision.transforms.functional_tensor", ft)
MADE = []


def rec(kind, data=None):
    class Set:
        def __init__(self, *a, **k):
            self.a, self.k, self.kind = a, k, kind
            MADE.append(self)

        def __len__(self):
            return len(self.items)

        def __getitem__(self, i):
            return self.items[i]
    return Set


import pytorchvideo.transforms  # noqa: E402

import pytorchvideo.data  # noqa: E402

pytorchvideo.data.Kinetics, pytorchvideo.data.make_clip_sampler = rec("kinetics"), lambda *a, **k: ("sampler", a)
import neuralcompression.data as ND  # noqa: E402

REAL = (ND.Vimeo90kSeptuplet, ND.OpenImagesV6)
ND.Vimeo90kSeptuplet, ND.OpenImagesV6 = rec("vimeo"), rec("openimages")
for d in ("torch_vct", "illm", "deep_video_compression"):
    sys.path.insert(0, os.path.join(REPO, "projects", d))
import data_module as DV  # noqa: E402
import open_images_datamodule as OI  # noqa: E402
from datamodules import kinetics as KI  # noqa: E402
from datamodules import uvg as UV  # noqa: E402
from datamodules import vimeo as VI  # noqa: E402


_init = torch.utils.data.dataloader._BaseDataLoaderIter.__init__
ORDER = [0, False]


def _iter_init(self, *a, **k):
    with _disable_current_modes():  # draws a seed for worker processes, of which there are none
        _init(self, *a, **k)


def _shuffle(self):
    """a shuffling sampler: any rotation, in either direction"""
    n = len(self.data_source)
    o = [(i + ORDER[0]) % n for i in range(n)]
    return iter(o[::-1] if ORDER[1] else o)


torch.utils.data.dataloader._BaseDataLoaderIter.__init__ = _iter_init
torch.utils.data.RandomSampler.__iter__ = _shuffle


def path(k):
    return str(k.get("root"))


def args(s, names):
    d = dict(zip(names, s.a))
    d.update(s.k)
    return d


VN = ["root", "as_video", "frames_per_group", "split", "folder_list", "pil_transform", "tensor_transform"]
ON = ["root", "split", "transform"]


def run(loader):
    return [b for b in loader]


def chunks(xs, b):
    return [xs[i:i + b] for i in range(0, len(xs), b)]


def perm(h, got, want):
    """every item once, in any order: items carry a distinct concrete tag in their first entry"""
    tags = [int(g.reshape(-1)[0].item()) if not isinstance(g, int) else g for g in got]
    return sorted(tags) == sorted(want)


def loaders(make, video, named):
    """training draws every item once per pass, validation in order; batches of the asked size"""
    def body(h):
        MADE.clear()
        n, bt, bv = h.pyint("n", 1, 4), h.pyint("bt", 1, 3), h.pyint("bv", 1, 3)
        ORDER[:] = [h.pyint("rot", 0, 3) % n, h.pybool("rev")]
        dm, bv = make(bt, bv)
        dm.setup()
        tr, va = dm.train_dataset, (dm.val_dataset if hasattr(dm, "val_dataset") else dm.eval_dataset)
        h.claim("one data set per split", len(MADE) >= 2 and tr is not va)
        named(h, dm, tr, va)
        x = h.tensor("x", (2 * n, 2), torch.float64, lo=0, hi=1)
        tag = lambda i: torch.full((1,), float(i), dtype=torch.float64)  # noqa: E731
        tr.items = [torch.cat([tag(i), x[i]]) for i in range(n)]
        va.items = [torch.cat([tag(100 + i), x[n + i]]) for i in range(n)]
        h.claim("only training shuffles", isinstance(dm.train_dataloader().sampler, torch.utils.data.RandomSampler) and not isinstance(dm.val_dataloader().sampler, torch.utils.data.RandomSampler))
        wrap = (lambda b: b.video_tensor) if video else (lambda b: b)
        got = [wrap(b) for b in run(dm.train_dataloader())]
        h.claim("training batches have the asked size", [len(b) for b in got] == [len(c) for c in chunks(list(range(n)), bt)])
        flat = [r for b in got for r in b]
        h.claim("training sees every training item once", perm(h, flat, range(n)))
        for r in flat:
            h.claim("whole", h.close(r[1:], x[int(r[0].item())]))
        got = [wrap(b) for b in run(dm.val_dataloader())]
        h.claim("validation batches have the asked size", [len(b) for b in got] == [len(c) for c in chunks(list(range(n)), bv)])
        flat = [r for b in got for r in b]
        h.claim("validation sees the validation items in order", [int(r[0].item()) for r in flat] == [100 + i for i in range(n)])
        for i, r in enumerate(flat):
            h.claim("whole", h.close(r[1:], x[n + i]))
        if hasattr(dm, "test_dataloader") and not video:
            h.claim("tests run on the same items", [int(r[0].item()) for b in run(dm.test_dataloader()) for r in wrap(b)] == [100 + i for i in range(n)])
    return body


def dvc_make(bt, bv):
    return DV.Vimeo90kSeptupletLightning("/data", frames_per_group=3, train_batch_size=bt, val_batch_size=bv, image_size=4), bv


def dvc_named(h, dm, tr, va):
    a, b = args(tr, VN), args(va, VN)
    h.claim("training and test split of the same videos", path(a) == path(b) == "/data" and a["split"] == "train" and b["split"] == "test")
    h.claim("clips of the asked number of frames", all(c["as_video"] is True and c["frames_per_group"] == 3 for c in (a, b)))


def vct_make(bt, bv):
    return VI.VimeoDataModule("/data", train_batch_size=bt, val_batch_size=bv, video_crop_size=(4, 4)), bv


def vct_named(h, dm, tr, va):
    a, b = args(tr, VN), args(va, VN)
    h.claim("training and test split of the same videos", path(a) == path(b) == "/data" and a["split"] == "train" and b["split"] == "test")
    h.claim("clips", a["as_video"] is True and b["as_video"] is True)


def oi_make(bt, bv):
    own = bv == 2
    return OI.OpenImagesDataModule("/data", bt, image_size=4, val_batch_size=bv if own else None, pin_memory=False), (bv if own else bt)


def oi_named(h, dm, tr, va):
    a, b = args(tr, ON), args(va, ON)
    h.claim("training and validation split of the same images", path(a) == path(b) == "/data" and a["split"] == "train" and b["split"] == "val")
    h.claim("each with its own transform", a["transform"] is dm.train_transform and b["transform"] is dm.val_transform)


def no_workers(dm):
    dm.num_workers = 0
    dm.pin_memory = False
    return dm


def vct(make):
    return lambda bt, bv: (lambda r: (no_workers(r[0]), r[1]))(make(bt, bv))


def rejects(h):
    k = h.pyint("k", 0, 1)
    if k == 0:
        f = h.pyint("frames", -1, 9)
        try:
            DV.Vimeo90kSeptupletLightning("/data", frames_per_group=f)
            ok = True
        except ValueError:
            ok = False
        h.claim("a septuplet gives one to seven frames", ok == (1 <= f <= 7))
    else:
        w = h.pyint("w", 0, 3)
        t = lambda x: x  # noqa: E731
        try:
            m = OI.OpenImagesDataModule("/data", 1, train_transform=t if w & 1 else None, val_transform=t if w & 2 else None)
            ok = True
        except ValueError:
            ok = False
        h.claim("without a size both transforms must be given", ok == (w == 3))
        if ok:
            h.claim("and are used", m.train_transform is t and m.val_transform is t)


def uvg_frames(h):
    f = h.pyint("f", 1, 40) if h.pybool("small") else h.pyint("f2", 295, 305)
    try:
        m = UV.UVGDataModule("/data", num_frames=f)
        ok = True
    except AssertionError:
        ok = False
    h.claim("clips never mix videos: the number of frames divides 300", ok == (300 % f == 0))


def uvg(t, hw):
    def body(h):
        m = no_workers(UV.UVGDataModule("/data", num_frames=t))
        x = h.tensor("x", (2 * t, 3) + hw, torch.float32, lo=0, hi=1)
        same = h.pybool("same")
        lab = [0] * t + [1] * t
        if not same:
            lab[t - 1] = 1
        made = []

        class Folder:
            def __init__(self, root, transform=None, **k):
                made.append((root, transform))

            def __len__(self):
                return 2 * t

            def __getitem__(self, i):
                return x[i], lab[i]
        keep = torchvision.datasets.ImageFolder
        torchvision.datasets.ImageFolder = Folder
        try:
            got, err = run(m.test_dataloader()), None
        except AssertionError as e:
            got, err = None, e
        finally:
            torchvision.datasets.ImageFolder = keep
        mixed = not same and t > 1
        h.claim("a clip of two videos is refused", (err is not None) == mixed)
        h.claim("of the given folder", made[0][0] == "/data")
        if err is None:
            h.claim("one clip per group of frames", [tuple(g.video_tensor.shape) for g in got] == [(1, t, 3) + hw] * 2)
            for k, g in enumerate(got):
                h.claim("frames in order", h.close(g.video_tensor[0], x[k * t:(k + 1) * t]))
    return body


def uvg_norm(h):
    """frames are scaled to [0,1] and normalised when asked"""
    norm = h.pybool("norm")
    x = h.tensor("x", (3, 2, 1), torch.float32, lo=0, hi=1)
    made = []
    keep = torchvision.datasets.ImageFolder, torchvision.transforms.ToTensor.__call__
    torchvision.datasets.ImageFolder = lambda root, transform=None, **k: made.append(transform) or [0]
    torchvision.transforms.ToTensor.__call__ = lambda self, pic: pic  # reading the image; its values are in [0,1] already
    try:
        m = no_workers(UV.UVGDataModule("/data", num_frames=1, normalize=norm))
        m.test_dataloader()
        y = made[0](x)
    finally:
        torchvision.datasets.ImageFolder, torchvision.transforms.ToTensor.__call__ = keep
    h.claim("values in [0,1], normalised when asked", h.close(y, (x - 0.45) / 0.225 if norm else x))


def kin(**kw):
    return no_workers(KI.KineticsDataModule("/data", **kw))


def collate(train, pad, ts, hw):
    def body(h):
        m = kin()
        xs = [h.tensor("x%d" % i, (3, t) + hw, torch.float32, lo=0, hi=1) for i, t in enumerate(ts)]
        keep = [x.clone() for x in xs]
        batch = [{"video": x, "label": i} for i, x in enumerate(xs)]
        out = (m._custom_collate_train(batch, pad=True) if pad else m._custom_collate_train(batch)) if train else m._custom_collate_val(batch)
        v = out.video_tensor
        t = max(ts)
        h.claim("videos, frames, channels, height, width", tuple(v.shape) == (len(ts), t, 3) + hw)
        for i, x in enumerate(keep):
            for k in range(t):
                want = x[:, k] if k < ts[i] else torch.zeros_like(x[:, 0])
                h.claim("every frame at its own place", h.close(v[i, k], want))
    return body


def kin_transform(mode, sub, norm, t, hw, crop):
    def body(h):
        m = kin(video_num_subsampled=sub, normalize=norm)
        m.video_crop_size = crop
        x = h.tensor("x", (3, t) + hw, torch.float32, lo=0, hi=255)
        out = m._video_transform(mode)({"video": x, "audio": None, "label": 5})
        v = out["video"]
        h.claim("audio is dropped, the label kept", "audio" not in out and out["label"] == 5)
        n = t if sub is None else sub if isinstance(sub, int) else max(sub)
        idx = [int(q) for q in torch.linspace(0, t - 1, n).clamp(0, t - 1).long()] if sub is not None else list(range(t))
        y = x[:, idx] / 255.0
        if norm:
            y = (y - 0.45) / 0.225
        if mode == "val":
            top, left = int(round((hw[0] - crop) / 2.0)), int(round((hw[1] - crop) / 2.0))
            y = y[..., top:top + crop, left:left + crop]
        h.claim("shape", tuple(v.shape) == tuple(y.shape))
        if tuple(v.shape) == tuple(y.shape):
            h.claim("evenly chosen frames, scaled to [0,1], normalised when asked, centre crop in validation only", h.close(v, y))
    return body


def kin_setup(h):
    MADE.clear()
    m = kin(clip_duration=3, train_clip_sampler="random")
    m.setup()
    a, b = m.train_dataset, m.val_dataset
    h.claim("training and validation folder", (a.k["data_path"], b.k["data_path"]) == ("/data/train", "/data/val") and not a.k["decode_audio"] and not b.k["decode_audio"])
    h.claim("training samples clips as configured, validation uniformly", a.k["clip_sampler"] == ("sampler", ("random", 3)) and b.k["clip_sampler"] == ("sampler", ("uniform", 3)))
    n = h.pyint("n", 1, 3)
    x = h.tensor("x", (2 * n, 3, 2, 1, 1), torch.float32, lo=0, hi=1)
    a.items, b.items = [{"video": x[i]} for i in range(n)], [{"video": x[n + i]} for i in range(n)]
    m.train_batch_size, m.val_batch_size = h.pyint("bt", 1, 3), h.pyint("bv", 1, 3)
    for ds, ld, bs, off in ((a, m.train_dataloader(), m.train_batch_size, 0), (b, m.val_dataloader(), m.val_batch_size, n)):
        got = run(ld)
        h.claim("batches of the asked size", [len(g.video_tensor) for g in got] == [len(c) for c in chunks(list(range(n)), bs)])
        for i, r in enumerate([r for g in got for r in g.video_tensor]):
            h.claim("clips in order, frames first", h.close(r, x[off + i].permute(1, 0, 2, 3)))
    seen = len(MADE)
    ld = m.test_dataloader()
    h.claim("one test set, of the test folder", [q.k["data_path"] for q in MADE[seen:]] == ["/data/test"] and not MADE[-1].k["decode_audio"])
    MADE[-1].items = [{"video": x[i]} for i in range(n)]
    got = run(ld)
    h.claim("test clips one by one, in order", [tuple(g.video_tensor.shape) for g in got] == [(1, 2, 3, 1, 1)] * n)
    for i, g in enumerate(got):
        h.claim("test clips, frames first", h.close(g.video_tensor[0], x[i].permute(1, 0, 2, 3)))


def instances(tier):
    deep = tier != "quick"
    out = []
    for name, mk, nm, video in (("dvc", dvc_make, dvc_named, False), ("vct", vct(vct_make), vct_named, True), ("openimages", oi_make, oi_named, False)):
        out.append({"name": "loaders/" + name, "group": "loaders", "body": loaders(mk, video, nm), "validate": 2, "max_paths": 400})
    out.append({"name": "rejects", "body": rejects, "validate": 2, "max_paths": 60})
    out.append({"name": "uvg/normalise", "group": "uvg", "body": uvg_norm, "validate": 2})
    out.append({"name": "uvg/frames", "group": "uvg", "body": uvg_frames, "validate": 2, "max_paths": 200})
    for t in (1, 2, 3) + ((4,) if deep else ()):
        out.append({"name": "uvg/%d" % t, "group": "uvg", "body": uvg(t, (2, 1)), "validate": 2})
    for tr, pad, ts in [(False, False, (2, 2)), (True, False, (3, 3)), (True, True, (1, 3)), (True, True, (3, 2, 1))]:
        out.append({"name": "collate/%s%s-%s" % ("train" if tr else "val", "-pad" if pad else "", "".join(map(str, ts))), "group": "collate", "body": collate(tr, pad, ts, (2, 1)), "validate": 2})
    for a in [("val", None, False, 2, (3, 4), 2), ("val", 2, True, 4, (2, 2), 2), ("test", [2, 3], False, 4, (2, 3), 2), ("test", None, True, 1, (2, 2), 1), ("val", [1, 2], False, 3, (3, 3), 1)]:
        out.append({"name": "transform/%s-%s%s" % (a[0], a[1], "-norm" if a[2] else ""), "group": "transform", "body": kin_transform(*a), "validate": 2})
    out.append({"name": "kinetics", "body": kin_setup, "validate": 2, "max_paths": 60})
    return out
