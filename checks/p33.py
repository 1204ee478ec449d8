"""P33: datasets deliver the documented item for every index, directory order and clip history."""
import atexit
import contextlib
import glob as globmod
import hashlib
import io
import itertools
import os
import pathlib
import re
import shutil
import tempfile
import urllib.request

import torch
import z3
from PIL import Image
from torch.utils._python_dispatch import _disable_current_modes

from vlib import elem as E
from vlib import symten as T
from vlib.elem import is_sym

import neuralcompression.data._clic_2020_image as M_CI
import neuralcompression.data._kodak as M_K
import neuralcompression.data._openimages_v6 as M_O
from neuralcompression.data import CLIC2020Image, CLIC2020Video, Kodak, Vimeo90kSeptuplet
from neuralcompression.data._div2k_dataset import DIV2KDataset
from neuralcompression.data._openimages_v6 import OpenImagesV6
from pytorchvideo.data.clip_sampling import ClipInfo, ClipSampler
from pytorchvideo.data.frame_video import FrameVideo

BOUNDS = ("Vimeo: every index of up to 4 septuplets, every group size, both modes; CLIC/DIV2K/OpenImages/Kodak: every index, every order in which the file system or the list file names up to 4 images; "
          "CLIC video: every history of up to 3 videos x 3 clips (clip times symbolic, last-clip and augmentation decisions solver-chosen), every sampler order, two passes; frame sampling for up to 8 frames and 8 samples")
OUTSIDE = "decoding of image files (Pillow, OpenCV), downloads from the network (replaced by a stand-in), worker processes, more than 4 files"
ASSUMPTIONS = ["the file system is a scratch directory of tiny images; directory listings are permuted by the solver at os.scandir/os.listdir/Path.glob", "clip sampler and video are user-supplied objects: the sampler's answers are solver-chosen, the video records what it is asked"]

ROOT = tempfile.mkdtemp(prefix="p33-")
PID = os.getpid()
atexit.register(lambda: os.getpid() == PID and shutil.rmtree(ROOT, ignore_errors=True))


def paint(path, v, jpg=False):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    Image.new("RGB", (8, 8), (v, v, v)).save(path, **({"quality": 100} if jpg else {}))


def shade(img):
    return img.getpixel((3, 3))[0]


class SInt:
    """a symbolic index: arithmetic stays symbolic, use as a concrete index forks"""

    def __init__(self, v):
        self.v = v

    def _b(f):
        def g(s, o):
            return SInt(f(s.v, o.v if isinstance(o, SInt) else o))
        return g

    def _rb(f):
        def g(s, o):
            return SInt(f(o, s.v))
        return g

    def _c(f):
        def g(s, o):
            if not isinstance(o, (SInt, int)):
                return NotImplemented
            return T.S.path.branch(f(s.v, o.v if isinstance(o, SInt) else z3.IntVal(o)))
        return g

    __add__, __radd__ = _b(lambda a, b: a + b), _rb(lambda a, b: a + b)
    __sub__, __rsub__ = _b(lambda a, b: a - b), _rb(lambda a, b: a - b)
    __mul__, __rmul__ = _b(lambda a, b: a * b), _rb(lambda a, b: a * b)
    __floordiv__ = _b(lambda a, b: a / b)
    __mod__ = _b(lambda a, b: a % b)
    __lt__, __le__ = _c(lambda a, b: a < b), _c(lambda a, b: a <= b)
    __gt__, __ge__ = _c(lambda a, b: a > b), _c(lambda a, b: a >= b)
    __eq__, __ne__ = _c(lambda a, b: a == b), _c(lambda a, b: a != b)

    def __divmod__(self, o):
        return self // o, self % o

    def __index__(self):
        return T.S.path.pick_int(self.v)

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __neg__(self):
        return SInt(-self.v)


def index(h, name, lo, hi):
    v = h.z3int(name, lo, hi)
    return (SInt(v) if is_sym(v) else v), v


@contextlib.contextmanager
def listing(order):
    """directory listings come in the order of the permutation (by sorted position)"""
    saved = [(pathlib.Path, "glob"), (pathlib.Path, "rglob"), (pathlib.Path, "iterdir"), (os, "listdir"), (os, "scandir"), (globmod, "glob")]
    old = [getattr(o, n) for o, n in saved]

    def perm(xs, key=str):
        xs = sorted(xs, key=key)
        idx = [i for i in order if i < len(xs)] + list(range(len(order), len(xs)))
        return [xs[i] for i in idx]

    class Scan:
        def __init__(self, *a):
            with old[4](*a) as it:
                self.xs = iter(perm(it, key=lambda e: e.name))

        def __iter__(self):
            return self.xs

        def __next__(self):
            return next(self.xs)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    pathlib.Path.glob = lambda self, *a, **k: iter(perm(old[0](self, *a, **k)))
    pathlib.Path.rglob = lambda self, *a, **k: iter(perm(old[1](self, *a, **k)))
    pathlib.Path.iterdir = lambda self: iter(perm(old[2](self)))
    os.listdir = lambda *a: perm(old[3](*a))
    os.scandir = Scan
    globmod.glob = lambda *a, **k: perm(old[5](*a, **k))
    try:
        yield
    finally:
        for (o, n), f in zip(saved, old):
            setattr(o, n, f)


def pick_perm(h, n):
    ps = list(itertools.permutations(range(n)))
    return ps[h.pyint("perm", 0, len(ps) - 1)]


def raises(f, exc):
    try:
        f()
    except exc:
        return True
    except Exception:  # noqa: BLE001
        return False
    return False


# ---------------------------------------------------------------- Vimeo
VROOT = os.path.join(ROOT, "vimeo")
NSEP = 4


def mk_vimeo():
    for i in range(NSEP):
        for j in range(1, 8):
            paint(os.path.join(VROOT, "sequences", "%03d" % i, "im%d.png" % j), 10 * (i + 1) + j)
    with open(os.path.join(VROOT, "sep_trainlist.txt"), "w") as f:
        f.write("002\n000\n")
    with open(os.path.join(VROOT, "sep_testlist.txt"), "w") as f:
        f.write("003\n")
    with open(os.path.join(VROOT, "sep_vallist.txt"), "w") as f:
        f.write("001\n")


mk_vimeo()
FOLDERS = ["sequences/%03d" % i for i in (2, 0, 3, 1)]
SHADE = [10 * (i + 1) for i in (2, 0, 3, 1)]


def vimeo_image(g, tensor):
    """image mode: item i is frame i % g + 1 of septuplet i // g"""
    def body(h):
        idx, v = index(h, "i", 0, NSEP * g - 1)
        log = []

        def pil(img):
            log.append(shade(img))
            return torch.tensor(float(shade(img)))
        kw = {"pil_transform": pil, "tensor_transform": lambda t: 2 * t + 1} if tensor else {}
        with _disable_current_modes():
            ds = Vimeo90kSeptuplet(VROOT, as_video=False, frames_per_group=g, folder_list=FOLDERS, **kw)
            n = len(ds)
            out = ds[idx]
        h.claim("the number of images", n == NSEP * g)
        s = out.item() if tensor else shade(out)
        want = z3.IntVal(0) if is_sym(v) else 0
        if is_sym(v):
            for k, sh in enumerate(SHADE):
                want = z3.If(v / g == k, sh + v % g + 1, want)
        else:
            want = SHADE[v // g] + v % g + 1
        h.claim("item i is frame i mod g of septuplet i div g, transformed once", E.eq(want * 2 + 1 if tensor else want, int(s)))
    return body


def vimeo_video(g, default):
    def body(h):
        idx, v = index(h, "i", 0, 1)
        tr = h.pybool("train")
        kw = {} if default else {"pil_transform": lambda im: torch.full((1, 1), float(shade(im))), "tensor_transform": lambda t: -t}
        with _disable_current_modes():
            ds = Vimeo90kSeptuplet(VROOT, as_video=True, frames_per_group=g, split="train" if tr else "test", **kw)
            n = len(ds)
            h.claim("one item per septuplet of the split", n == (2 if tr else 1))
            if not tr:
                idx, v = 0, 0
            out = ds[idx]
            vals = [round(float(x) * 255) for x in out[:, 0, 0, 0]] if default else [-int(x) for x in out[:, 0, 0]]
        h.claim("the first frames of the septuplet in order", len(vals) == g)
        for k in range(g):
            want = (E.ite(E.eq(v, 0), 30, 10) if is_sym(v) else (30 if v == 0 else 10)) if tr else 40
            h.claim("the frames of the indexed septuplet, in order", E.eq(want + k + 1, vals[k]))
    return body


def vimeo_args(h):
    g = h.pyint("g", -2, 10)
    s, f = h.pybool("split"), h.pybool("folders")
    name = ("train", "test", "val")[h.pyint("which", 0, 2)]
    kw = {}
    if s:
        kw["split"] = name
    if f:
        kw["folder_list"] = FOLDERS
    bad = not 1 <= g <= 7 or s == f or (s and name == "val")
    h.claim("group sizes outside 1..7, ambiguous and unknown splits are rejected", raises(lambda: Vimeo90kSeptuplet(VROOT, frames_per_group=g, **kw), ValueError) == bad)
    h.claim("a transform that returns no tensor is reported", raises(lambda: Vimeo90kSeptuplet(VROOT, folder_list=FOLDERS, pil_transform=lambda x: x)[0], RuntimeError))


# ---------------------------------------------------------------- folders of images
CROOT = os.path.join(ROOT, "clic")
NAMES = ["b", "a10", "c", "a2"]


def mk_clic():
    for s, off in (("train", 10), ("val", 60), ("test", 110)):
        for i, n in enumerate(sorted(NAMES)):
            paint(os.path.join(CROOT, "clic2020", s, n + ".png"), off + i)
        with open(os.path.join(CROOT, "clic2020", s, "notes.txt"), "w") as f:
            f.write("x")
    for i, n in enumerate(sorted(NAMES)):
        paint(os.path.join(CROOT, "div", "DIV2K_valid_HR", n + ".png"), 160 + i)


mk_clic()


def folder(kind):
    def body(h):
        order = pick_perm(h, 4)
        split = ("train", "val", "test")[h.pyint("split", 0, 2)] if kind == "clic" else "val"
        idx, v = index(h, "i", 0, 3)
        tf = h.pybool("tf")
        calls = []

        def t(img):
            calls.append(shade(img))
            return ("t", shade(img))
        with listing(order), _disable_current_modes():
            ds = CLIC2020Image(CROOT, split=split, transform=t if tf else None) if kind == "clic" else DIV2KDataset(os.path.join(CROOT, "div"), split=split, transform=t if tf else None)
            n = len(ds)
            out = ds[idx]
        off = {"train": 10, "val": 60, "test": 110}[split] if kind == "clic" else 160
        h.claim("only the images of the split are listed", n == 4)
        h.claim("the transform is applied once", (out[0] == "t" and len(calls) == 1) if tf else not isinstance(out, tuple))
        s = out[1] if tf else shade(out)
        h.claim("item i is the i-th image by name, whatever the directory order", E.eq(v + off, s))
        h.claim("unknown splits are rejected", raises(lambda: CLIC2020Image(CROOT, split="valid"), ValueError) and raises(lambda: DIV2KDataset(os.path.join(CROOT, "div"), split="train"), ValueError))
    return body


# ---------------------------------------------------------------- Open Images
OROOT = os.path.join(ROOT, "oi")
BAD = sorted(M_O._INVALID_IMAGE_NAMES)[:1] + sorted(M_O._INVALID_IMAGE_NAMES)[-1:]
ONAMES = ["0000aa", "7f00bb", BAD[0], BAD[1]]


def mk_oi():
    for s, off in (("train", 20), ("validation", 80), ("test", 140)):
        for i, n in enumerate(sorted(ONAMES)):
            paint(os.path.join(OROOT, s, n + ".jpg"), off + 8 * i, jpg=True)


mk_oi()


def open_images(h):
    order = pick_perm(h, 4)
    split = ("train", "val", "test")[h.pyint("split", 0, 2)]
    custom = h.pybool("custom")
    ext = h.pybool("ext")
    real = {"train": "train", "val": "validation", "test": "test"}[split]
    keep = [n for n in sorted(ONAMES) if split != "train" or n not in BAD]
    idx, v = index(h, "i", 0, len(keep) - 1)
    d = tempfile.mkdtemp(dir=ROOT)
    try:
        os.symlink(os.path.join(OROOT, real), os.path.join(d, real))
        lst = os.path.join(d, "my.txt" if custom else "list-%s-files.txt" % real)
        with open(lst, "w") as f:
            f.write("\n".join(ONAMES[i] + (".jpg" if ext else "") for i in order))
        with _disable_current_modes():
            ds = OpenImagesV6(d, split, image_list_file=lst if custom else None)
            n = len(ds)
            out = shade(ds[idx])
    finally:
        shutil.rmtree(d)
    h.claim("every listed image of the split except the excluded training images", n == len(keep))
    off = {"train": 20, "val": 80, "test": 140}[split]
    pos = [sorted(ONAMES).index(k) for k in keep]
    want = pos[-1]
    for k, p in enumerate(pos[:-1]):
        want = E.ite(E.eq(v, k), p, want)
    got = (out - off + 4) // 8
    h.claim("item i is the i-th listed name of the split's folder, whatever the order of the list", E.eq(want, got))
    h.claim("unknown splits are rejected", raises(lambda: OpenImagesV6(OROOT, "validation"), ValueError))


# ---------------------------------------------------------------- Kodak
KROOT = os.path.join(ROOT, "kodak")
PNG = []


def mk_kodak():
    for i in range(1, 25):
        p = os.path.join(KROOT, "kodim%02d.png" % i)
        paint(p, 4 * i)
        PNG.append(open(p, "rb").read())


mk_kodak()
KHASH = hashlib.sha1(b"".join(PNG)).hexdigest()


@contextlib.contextmanager
def patched(o, n, v):
    old = getattr(o, n)
    setattr(o, n, v)
    try:
        yield
    finally:
        setattr(o, n, old)


def kodak_index(h):
    idx, v = index(h, "i", 0, 23)
    tf = h.pybool("tf")
    with _disable_current_modes():
        ds = Kodak(KROOT, check_hash=False, transform=(lambda im: shade(im) + 1000) if tf else None)
        n = len(ds)
        out = ds[idx]
    h.claim("24 images", n == 24)
    h.claim("item i is kodim(i+1)", E.eq(4 * (v + 1), out - 1000 if tf else shade(out)))


def kodak_hash(h):
    """any single changed, swapped or missing image is noticed"""
    kind = h.pyint("kind", 0, 3)
    k = h.pyint("k", 1, 24)
    d = tempfile.mkdtemp(dir=ROOT)
    try:
        for i in range(1, 25):
            b = PNG[i - 1]
            if i == k and kind == 1:
                b = b + b"\0"
            if kind == 2 and i in (k, k % 24 + 1):
                b = PNG[(k % 24 if i == k else k - 1)]
            if i == k and kind == 3:
                continue
            with open(os.path.join(d, "kodim%02d.png" % i), "wb") as f:
                f.write(b)
        with patched(M_K, "SHA_HASH", KHASH):
            def f():
                Kodak(d)
            ok = not raises(f, RuntimeError) and not raises(f, FileNotFoundError)
            off = raises(lambda: Kodak(d, check_hash=False), Exception)
    finally:
        shutil.rmtree(d)
    h.claim("changed, exchanged or missing images are reported, intact data accepted", ok == (kind == 0))
    h.claim("no check, no report", not off)
    h.claim("a missing directory is reported", raises(lambda: Kodak(d, check_hash=False), FileNotFoundError))


def kodak_download(h):
    """download creates the directory; an existing one needs force; every image is fetched under its name"""
    exists, force, full = h.pybool("exists"), h.pybool("force"), h.pybool("full")
    d = tempfile.mkdtemp(dir=ROOT)
    root = os.path.join(d, "k")
    asked = []

    def urlopen(url, *a, **k):
        asked.append(url)
        return io.BytesIO(PNG[int(re.search(r"kodim(\d+)", url).group(1)) - 1])
    try:
        if exists:
            os.mkdir(root)
            if full:
                with open(os.path.join(root, "kodim03.png"), "wb") as f:
                    f.write(b"stale")
        with patched(urllib.request, "urlopen", urlopen), patched(M_K, "SHA_HASH", KHASH), patched(M_K, "tqdm", lambda x, *a, **k: x):
            try:
                Kodak(root, download=True, force_download=force, kodak_url="http://x/")
                r = "ok"
            except RuntimeError:
                r = "refused"
            except Exception as e:  # noqa: BLE001
                r = type(e).__name__
        have = sorted(os.listdir(root)) if os.path.exists(root) else []
    finally:
        shutil.rmtree(d)
    h.claim("an existing directory is only overwritten on request", r == ("refused" if exists and not force else "ok"))
    if r == "ok":
        h.claim("every image is stored under its name", have == ["kodim%02d.png" % i for i in range(1, 25)] and sorted(set(asked)) == ["http://x/kodim%02d.png" % i for i in range(1, 25)])


# ---------------------------------------------------------------- CLIC video
VNAMES = ["Animation_720P-0aaa", "Gaming_1080P-0bbb", "Vlog_720P-0ccc"]
NFR = [4, 3, 2]
CVROOT = os.path.join(ROOT, "clicv")
for _n, _k in zip(VNAMES, NFR):
    for _i in range(_k):
        for _c in "yuv":
            paint(os.path.join(CVROOT, _n, "%s_%05d_%s.png" % (_n, _i, _c)), 10 + _i)


class Vid:
    made = []

    def __init__(self, paths, *a, **kw):
        self.paths = [str(p) for p in paths]
        self.kw = kw
        self.clips = []
        Vid.made.append(self)

    @property
    def duration(self):
        return ("duration", self.paths[0].split(os.sep)[-2])

    def get_clip(self, start, end, frame_filter=None):
        self.clips.append((start, end, frame_filter))
        return {"video": ("clip", self, len(self.clips) - 1), "audio": None}


def z(h, name):
    """a symbolic clip time, carried around as an opaque value"""
    return h.z3int(name, 0, 1000)


def clic_video(nv, clips, augs, passes, stop=False):
    """every clip of every drawn video is delivered, in order, on every pass"""
    def body(h):
        orders = list(itertools.permutations(range(nv)))
        draws = [orders[h.pyint("order%d" % p, 0, len(orders) - 1)] for p in range(passes)]
        dirorder = pick_perm(h, 3) if nv == 3 and clips == 1 else (2, 0, 1, 3)
        state = {"n": 0, "in_video": 0, "asked": [], "p": -1}

        class Order(torch.utils.data.Sampler):
            def __init__(self, src):
                self.src = src

            def __len__(self):
                return len(self.src)

            def __iter__(self):
                state["p"] += 1
                return iter(list(draws[state["p"]]) if state["p"] < passes else [])

        class Clips(ClipSampler):
            def __init__(self):
                self._n = 0

            def __call__(self, last, duration, annotation):
                k = state["n"]
                state["n"] += 1
                state["in_video"] += 1
                lastclip = True if state["in_video"] >= clips else h.pybool("last%d" % k)
                aug = 0 if state["in_video"] == 1 or not augs else h.pyint("aug%d" % k, 0, 1)
                info = ClipInfo(z(h, "s%d" % k), z(h, "e%d" % k), k, aug, lastclip)
                if lastclip:
                    state["in_video"] = 0
                state["asked"].append((last, duration, info))
                return info

        Vid.made = []
        with listing(dirorder), patched(FrameVideo, "from_frame_paths", classmethod(lambda cls, paths, *a, **kw: Vid(paths, *a, **kw))):
            seen = []
            ds = CLIC2020Video(CVROOT if nv == 3 else sub(nv), Clips(), video_sampler=Order, transform=lambda s: dict(s, touched=s.get("touched", 0) + 1))
            h.claim("one entry per video", len(ds) == nv)
            state["p"] = -1  # the sampler may also be started by the constructor
            for p in range(passes):
                state["p"] = p - 1
                base = len(seen)
                it = iter(ds)
                for s in it:
                    seen.append((p, s))
                    if len(seen) > 40:
                        break
                    if stop and p == 0:
                        state["in_video"] = 0
                        break
                got = [x for q, x in seen if q == p]
                k, prev_end, vi = base, None, 0
                ok_order = ok_time = ok_clip = ok_name = True
                cached = None
                for x in got:
                    last, dur, info = state["asked"][k]
                    k += 1
                    want = draws[p][vi] if vi < nv else None
                    name = VNAMES[want] if want is not None else None
                    ok_order = E.band(ok_order, x["video_index"] == want, x["clip_index"] == info.clip_index, x["aug_index"] == info.aug_index)
                    ok_name = E.band(ok_name, x["video_name"] == name, dur == ("duration", name), x["touched"] == 1)
                    ok_time = E.band(ok_time, E.eq(last, 0 if prev_end is None else prev_end))
                    c = x["video"]
                    if info.aug_index == 0:
                        cached = c
                    ok_clip = E.band(ok_clip, c is cached if info.aug_index else True)
                    vid, j = c[1], c[2]
                    ok_clip = E.band(ok_clip, vid.paths == [os.path.join(CVROOT if nv == 3 else sub(nv), name, "%s_%05d_y.png" % (name, i)) for i in range(NFR[want])] if want is not None else False)
                    if info.aug_index == 0:
                        ok_clip = E.band(ok_clip, E.eq(vid.clips[j][0], info.clip_start_sec), E.eq(vid.clips[j][1], info.clip_end_sec), vid.clips[j][2] is None)
                    prev_end = None if info.is_last_clip else info.clip_end_sec
                    vi += 1 if info.is_last_clip else 0
                if not (stop and p == 0):
                    h.claim("a pass delivers every drawn video once, with all its clips", vi == nv and len(got) > 0)
                h.claim("clips come from the drawn videos in order", ok_order)
                h.claim("each sample names its video", ok_name)
                h.claim("clip times continue within a video and start at zero in the next", ok_time)
                h.claim("the clip shows the frames of the video in order; further augmentations reuse it", ok_clip)
    return body


_subs = {}


def sub(nv):
    if nv not in _subs:
        d = os.path.join(ROOT, "clicv%d" % nv)
        if not os.path.exists(d):
            os.mkdir(d)
            for n in VNAMES[:nv]:
                os.symlink(os.path.join(CVROOT, n), os.path.join(d, n))
        _subs[nv] = d
    return _subs[nv]


for _k in (1, 2):
    sub(_k)


def frames(n, f):
    def body(h):
        k = [h.z3int("f%d" % i, 0, 1 << 20) for i in range(n)]
        with _disable_current_modes():
            out = CLIC2020Video._sample_frames(k, f)
            at = CLIC2020Video._sample_frames(list(range(n)), f)
        h.claim("the requested number of frames", len(out) == f)
        h.claim("frames of the clip in order", len(at) == f and all(a <= b for a, b in zip(at, at[1:])))
        h.claim("spread evenly over the clip", all(abs(a * max(f - 1, 1) - i * (n - 1)) < max(f - 1, 1) + (f > 1) for i, a in enumerate(at)))
        h.claim("selection depends on positions only", E.band(*[E.eq(o, k[a]) for o, a in zip(out, at)]))
        for j, want in ((0, 0),) + (((f - 1, n - 1),) if f > 1 else ()):
            h.claim("from the first to the last frame", E.eq(out[j], k[want]))
        if n == f:
            h.claim("all frames when as many are asked for", E.band(*[E.eq(a, b) for a, b in zip(out, k)]))
    return body


def filter_used(h):
    f = h.pyint("f", 0, 4)
    Vid.made = []

    class One(ClipSampler):
        def __init__(self):
            pass

        def __call__(self, *a):
            return ClipInfo(0, 1, 0, 0, True)
    with patched(FrameVideo, "from_frame_paths", classmethod(lambda cls, paths, *a, **kw: Vid(paths, *a, **kw))):
        ds = CLIC2020Video(CVROOT, One(), frames_per_clip=f or None, video_sampler=torch.utils.data.SequentialSampler)
        next(iter(ds))
    flt = Vid.made[0].clips[0][2]
    fr = [h.z3int("f%d" % i, 0, 1 << 20) for i in range(5)]
    if not f:
        h.claim("no frame selection unless asked for", flt is None)
    else:
        with _disable_current_modes():
            out = flt(fr)
        h.claim("frames_per_clip frames are selected", len(out) == f)
        h.claim("the first frame is the first of the clip", E.eq(out[0], fr[0]))


def instances(tier):
    deep = tier != "quick"
    out = []
    for g in range(1, 8):
        out.append({"name": f"vimeo/image/g{g}", "group": "vimeo", "body": vimeo_image(g, True), "validate": 2})
        out.append({"name": f"vimeo/video/g{g}", "group": "vimeo", "body": vimeo_video(g, g % 2 == 1), "validate": 2})
    out.append({"name": "vimeo/untransformed", "group": "vimeo", "body": vimeo_image(3, False), "validate": 2})
    out.append({"name": "vimeo/arguments", "group": "vimeo", "body": vimeo_args, "validate": 2})
    out.append({"name": "folder/clic", "group": "folder", "body": folder("clic"), "validate": 2, "max_paths": 5000})
    out.append({"name": "folder/div2k", "group": "folder", "body": folder("div"), "validate": 2, "max_paths": 5000})
    out.append({"name": "openimages", "body": open_images, "validate": 2, "max_paths": 5000})
    out.append({"name": "kodak/index", "group": "kodak", "body": kodak_index, "validate": 2})
    out.append({"name": "kodak/hash", "group": "kodak", "body": kodak_hash, "validate": 2})
    out.append({"name": "kodak/download", "group": "kodak", "body": kodak_download, "validate": 2})
    for a in [(1, 3, True, 2), (2, 2, True, 2), (2, 3, False, 1), (3, 1, False, 1), (2, 2, False, 2, True)] + ([(3, 2, True, 2), (2, 4, True, 2)] if deep else []):
        out.append({"name": "clip/v%d-c%d-a%d-p%d%s" % (a[:2] + (int(a[2]), a[3], "-stop" if len(a) > 4 else "")), "group": "clip", "body": clic_video(*a), "validate": 2, "max_paths": 20000, "budget": 600 if deep else 200})
    N = 8 if not deep else 12
    for n in range(1, N + 1):
        for f in range(1, N + 1):
            if deep or (n + f) % 2 == 0 or n == f:
                out.append({"name": f"frames/{n}-{f}", "group": "frames", "body": frames(n, f), "validate": 1})
    out.append({"name": "clip/filter", "group": "clip", "body": filter_used, "validate": 2})
    return out
