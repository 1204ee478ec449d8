FN = "neuralcompression/functional/"
seed("S02", "P02", [(FN + "_image_to_255_scale.py", "image = torch.round(image * 255.0)", "image = torch.floor(image * 256.0).clamp(max=255.0)")],
     "a pixel value that is not a multiple of 1/255", "byte images still round-trip, but other values are no longer mapped to the nearest integer", '''
import torch
from neuralcompression.functional import image_to_255_scale
x = torch.linspace(0, 1, 1000).reshape(1, 1, 20, 50)
y = image_to_255_scale(x)
assert ((y - 255 * x).abs() <= 0.5001).all()
''')
seed("S03", "P05", [(FN + "_lower_bound.py", "(x >= bound) | (y < 0)", "(x > bound) | (y < 0)")],
     "an input element exactly equal to the bound and a positive upstream gradient", "the gradient of an element sitting exactly on the bound is dropped", '''
import torch
from neuralcompression.functional import lower_bound
x = torch.tensor([0.5, 1.0, 2.0], requires_grad=True)
lower_bound(x, torch.tensor(1.0)).sum().backward()
assert x.grad.tolist() == [0.0, 1.0, 1.0], x.grad
''')
seed("S04", "P04", [(FN + "_dense_image_warp.py", "base_grid + flow,", "base_grid + flow.clamp(-1.0, 1.0),")],
     "a flow vector longer than half the image", "large displacements are truncated", '''
import torch
from neuralcompression.functional import dense_image_warp
img = torch.arange(25.).reshape(1, 1, 5, 5)
flow = torch.zeros(1, 5, 5, 2)
flow[..., 0] = 2.0
y = dense_image_warp(img, flow, align_corners=True)
assert torch.allclose(y[0, 0, :, 0], img[0, 0, :, 4]), y
flow[..., 0] = 1.5
y = dense_image_warp(img, flow, align_corners=True)
assert torch.allclose(y[0, 0, :, 0], img[0, 0, :, 3]), y
''')
seed("S05", "P06", [(FN + "_log_expm1.py", "        x < 15.0,\n", "        x < 5.0,\n")],
     "an argument between 5 and 15", "log(exp(x)-1) returns x too early", '''
import math, torch
from neuralcompression.functional import log_expm1
for v in (0.5, 3.0, 5.5, 7.0, 14.0, 20.0):
    assert abs(float(log_expm1(torch.tensor(v, dtype=torch.float64))) - math.log(math.expm1(v))) < 1e-4, v
''')
seed("S07", "P07", [("neuralcompression/distributions/_uniform_noise.py", "            log_survival_function_negative,\n            log_cdf_positive,", "            log_cdf_positive,\n            log_cdf_positive,")],
     "a value right of the median, where the survival function is the smaller one", "the log-probability in the right half uses the wrong reference term", '''
import torch
from torch.distributions import Normal
from neuralcompression.distributions import UniformNoise
d = UniformNoise(Normal(torch.tensor(0.0), torch.tensor(1.0)))
for v in (-2.0, -0.5, 0.0, 0.7, 2.0, 3.0):
    v = torch.tensor(v)
    assert abs(float(torch.exp(d.log_prob(v)) - d.prob(v))) < 1e-4, (v, d.log_prob(v), d.prob(v))
''')

seed("S01", "P01", [(FN + "_pad_image.py", "(0, pad_width, 0, pad_height), mode=mode)", "(0, pad_width, 0, pad_height), mode=mode if pad_height else \"replicate\")")],
     "an image whose height already is a multiple of the factor, padded in width only", "the padding mode is ignored for such images", '''
import torch
import torch.nn.functional as F
from neuralcompression.functional import pad_image_to_factor
x = torch.rand(1, 3, 16, 11)
y, size = pad_image_to_factor(x, 8)
assert torch.equal(y, F.pad(x, (0, 5, 0, 0), mode="reflect"))
y, size = pad_image_to_factor(x, 8, mode="constant")
assert torch.equal(y, F.pad(x, (0, 5, 0, 0)))
''')
seed("S06", "P08", [(FN + "_soft_round_inverse.py", "torch.clamp(r, -0.5, 0.5)", "torch.clamp(r, -0.45, 0.45)")],
     "an argument whose preimage lies within 0.05 of an integer", "the inverse is truncated close to the cell borders", '''
import torch
from neuralcompression.functional import soft_round, soft_round_inverse
x = torch.tensor([-1.7, -0.03, 0.03, 0.5, 1.97])
y = soft_round_inverse(soft_round(x, 2.0), 2.0)
assert torch.allclose(x, y, atol=1e-3), y
''')
seed("S08", "P09", [(FN + "_information_content.py", "return (-1 / math.log(base)) * natural", "return (-1 / math.log(max(base, 2.0))) * natural")],
     "a logarithm base below 2", "small bases are silently replaced by 2", '''
import torch, math
from neuralcompression.functional import information_content
p = torch.tensor([0.5, 0.25])
for b in (2.0, math.e, 10.0, 1.5):
    want = -(p.log() / math.log(b)).sum()
    assert torch.allclose(information_content(p, base=b), want, atol=1e-5), b
''')
seed("S09", "P03", [(FN + "_hsv_to_rgb.py", "hsv[:, 0].max() > 360.0", "hsv[:, 0].max() >= 360.0")],
     "a pixel with hue exactly 360 degrees", "a valid hue is rejected", '''
import torch
from neuralcompression.functional import hsv_to_rgb
x = torch.tensor([360.0, 1.0, 1.0]).reshape(1, 3, 1, 1)
assert torch.allclose(hsv_to_rgb(x).reshape(-1), torch.tensor([1.0, 0.0, 0.0]), atol=1e-5)
''')
seed("S10", "P13", [("neuralcompression/layers/_q_bottleneck.py", "            indices = torch.argmin(distances, dim=1)", "            indices = torch.argmin(distances.round(decimals=3), dim=1)")],
     "two codewords whose squared distances to a latent differ by less than 0.001", "the first of two almost equally near codewords wins although the other is nearer", '''
import torch
from neuralcompression.layers._q_bottleneck import QBottleneck
q = QBottleneck([2], [1], normalize_codebook=False)
out = q.quantize_vectors(torch.full((1, 1, 1, 1), 0.01), torch.tensor([[0.03], [0.0]]))
assert out.indices.tolist() == [1], out.indices
''')
seed("S11", "P17", [("neuralcompression/optim/_ramp_const_cosine.py", "            elif cosine_step > 0:", "            elif 0 < cosine_step < self._num_cosine_steps:")],
     "stepping the schedule to its very last step", "after the cosine decay the rate jumps back to the base rate", '''
import torch
from neuralcompression.optim import RampConstCosineLRSchedule
p = torch.nn.Parameter(torch.zeros(1))
o = torch.optim.SGD([p], lr=1.0)
s = RampConstCosineLRSchedule(o, 10, num_ramp_steps=2, num_cosine_steps=4)
last = None
for i in range(11):
    lr = o.param_groups[0]["lr"]
    assert i <= 2 or lr <= last + 1e-9, (i, last, lr)
    last = lr
    o.step(); s.step()
''')
seed("S12", "P18", [("neuralcompression/metrics/_update_patch_fid.py", "num_x >= 1.5 * patch_size", "num_x > 1.5 * patch_size")],
     "an image exactly one and a half patches wide", "the patches of the shifted grid are not counted", '''
import torch
from neuralcompression.metrics import update_patch_fid
class M:
    def __init__(self): self.n = 0
    def update(self, x, real): self.n += len(x) if real else 0
m = M()
assert update_patch_fid(torch.rand(1, 3, 20, 12), torch.rand(1, 3, 20, 12), fid_metric=m, patch_size=8) == 4, m.n
''')
seed("S13", "P25", [("projects/torch_vct/neural/patcher.py", "x[..., : crop[0], : crop[1]] if crop is not None else x", "x[..., : crop[0], : crop[1]] if crop is not None and crop[0] < x.shape[-2] else x")],
     "an image whose width, but not its height, needed padding", "the padded columns are not cropped away", '''
import sys
sys.path.insert(0, "projects/torch_vct"); sys.path.insert(0, "projects")
import torch
from torch_vct.neural.patcher import Patcher
p = Patcher(4)
x = torch.rand(1, 2, 8, 6)
t = p(x, 4)
y = p.unpatch(t, crop=(8, 6), channels_last=True)
assert y.shape == x.shape and torch.equal(x, y), y.shape
''')
seed("S14", "P22", [("neuralcompression/models/_vqvae_xcit_autoencoder.py", "(0, pad_width, 0, pad_height), mode=\"reflect\")", "(0, pad_width, 0, pad_height), mode=\"reflect\" if pad_width else \"replicate\")")],
     "an image whose height, but not its width, has to be padded", "such images are padded by repeating the last row", '''
import torch
from neuralcompression.models import VqVaeXCiTAutoencoder
import torch.nn.functional as F
torch.manual_seed(0)
m = VqVaeXCiTAutoencoder(ch=32, ch_mult=(1, 1), num_res_blocks=1, attn_resolutions=[], resolution=8, embed_dim=4).eval()
x = torch.rand(1, 3, 7, 8)
with torch.no_grad():
    a = m(x).latent
    b = m.encoder(F.pad(x, (0, 0, 0, 1), mode="reflect"))
assert torch.allclose(a, b, atol=1e-5)
''')
seed("S15", "P33", [("neuralcompression/data/_clic_2020_video.py", "            self._current_video = None\n\n            self._next_clip_start_sec = 0.0\n", "            self._current_video = None\n")],
     "a clip sampler that takes more than one clip from a video, followed by another video", "the next video starts where the last one ended", '''
import os, tempfile, torch
from PIL import Image
from pytorchvideo.data.clip_sampling import ClipInfo, ClipSampler
from neuralcompression.data import CLIC2020Video
seen = []
class S(ClipSampler):
    def __init__(self): self.k = 0
    def __call__(self, last, duration, annotation):
        seen.append(float(last)); self.k += 1
        return ClipInfo(last, last + 0.04, 0, 0, self.k % 2 == 0)
with tempfile.TemporaryDirectory() as d:
    for v in ("a", "b"):
        os.mkdir(os.path.join(d, v))
        for i in range(6):
            Image.new("RGB", (8, 8)).save(os.path.join(d, v, "%05d_y.png" % i))
    ds = CLIC2020Video(d, S(), video_sampler=torch.utils.data.SequentialSampler)
    it = iter(ds)
    for _ in range(4):
        try:
            next(it)
        except StopIteration:
            break
assert seen[2] == 0.0, seen
''')
seed("S16", "P27", [("projects/torch_vct/neural/bottlenecks.py", "(inputs.unsqueeze(-1) <= grid.view", "(inputs.unsqueeze(-1) < grid.view")],
     "a scale exactly on the largest grid value", "no grid value is found and the narrowest table is selected", '''
import sys
sys.path.insert(0, "projects/torch_vct"); sys.path.insert(0, "projects")
import torch
from torch_vct.neural.bottlenecks import GsnConditionalLocScaleShift
b = GsnConditionalLocScaleShift(num_scales=8, num_means=4)
c = b._entropy_model
c.update_tables()
grid = c._prior_scale[0]
idx = c.build_indexes((torch.full_like(grid, float(c._prior_mean[0, 0])), grid))
assert all(x < y for x, y in zip(idx.tolist(), idx.tolist()[1:])), idx
''')
STUB = '''
import importlib.machinery, sys
from unittest.mock import MagicMock
def stub(*names, **attrs):
    for n in names:
        m = MagicMock(name=n)
        m.__spec__ = importlib.machinery.ModuleSpec(n, None)
        for k, v in attrs.items():
            setattr(m, k, v)
        sys.modules[n] = m
        if "." in n:
            setattr(sys.modules[n.rsplit(".", 1)[0]], n.rsplit(".", 1)[1], m)
    return m
class Box(dict):
    __getattr__ = dict.__getitem__
    def copy(self): return Box(self)
'''
BBD = "projects/bits_back_diffusion/"
seed("S17", "P35", [(BBD + "bits_back_diffusion/script_util.py", "size = size_per + (1 if i < extra else 0)", "size = size_per + (extra if i == 0 else 0)")],
     "a number of steps that leaves a remainder of two or more when divided into sections", "the first section gets all remaining steps", STUB + '''
stub("plotly", "plotly.graph_objs", "wandb", "hydra", "hydra.core", "hydra.core.hydra_config", "hydra.utils", "omegaconf")
stub("improved_diffusion", "improved_diffusion.dist_util", "improved_diffusion.gaussian_diffusion", "improved_diffusion.logger", "improved_diffusion.respace", "improved_diffusion.train_util", KVWriter=object, TrainLoop=object, SpacedDiffusion=object)
sys.path.insert(0, "projects/bits_back_diffusion")
from bits_back_diffusion.script_util import space_timesteps
s = space_timesteps(14, [2, 2, 2, 2])
assert s == {0, 3, 4, 7, 8, 10, 11, 13}, s
assert space_timesteps(12, [2, 2]) == {0, 5, 6, 11}
''')
seed("S18", "P40", [("projects/illm/train.py", "(checkpoint_dir / \"last.ckpt\").exists() and cfg.checkpoint.overwrite is False", "(checkpoint_dir / \"last.ckpt\").exists() and cfg.checkpoint.resume_training")],
     "overwrite=True on the command line in a directory with last.ckpt, resume_training left at its default", "training resumes from the checkpoint it was told to ignore", STUB + '''
import os, tempfile, pathlib
from torch import nn
stub("lightning", "lightning.pytorch", "lightning.pytorch.callbacks", "lightning.pytorch.strategies", "lightning.pytorch.loggers", "hydra", "omegaconf", "wandb", LightningModule=nn.Module, Callback=object, LightningDataModule=object)
sys.modules["hydra"].main = lambda **k: (lambda f: f)
sys.path.insert(0, "projects/illm")
import train
with tempfile.TemporaryDirectory() as d:
    (pathlib.Path(d) / "last.ckpt").touch()
    cfg = lambda o, r: Box(checkpoint=Box(overwrite=o, resume_training=r, callback=Box(dirpath=d)))
    assert train.fetch_checkpoint(cfg(False, True)) is not None
    assert train.fetch_checkpoint(cfg(True, True)) is None
    assert train.fetch_checkpoint(cfg(True, False)) is None
''')
seed("S19", "P40", [("projects/torch_vct/utils/checkpoint_loaders.py", "        k[len(\"model.\") :]: v\n", "        k.replace(\"model.\", \"\"): v\n")],
     "a model with a part whose own name ends in model, such as entropy_model", "weights are restored under a wrong name", STUB + '''
import os, tempfile, torch
from torch import nn
m = nn.Module()
m.entropy_model = nn.Linear(2, 2)
m.entropy_model.update = lambda *a: None
stub("hydra", "hydra.utils", "omegaconf", "model_pipeline", instantiate=lambda c: m, DictConfig=dict)
import importlib.util
spec = importlib.util.spec_from_file_location("cl", "projects/torch_vct/utils/checkpoint_loaders.py")
cl = importlib.util.module_from_spec(spec); spec.loader.exec_module(cl)
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "c.yaml"), "w").write("model: {value: {x: 1}}")
    torch.save({"state_dict": {"model.entropy_model.weight": torch.ones(2, 2), "model.entropy_model.bias": torch.zeros(2)}}, os.path.join(d, "a.ckpt"))
    cl.load_model_checkpoint_from_config(d, "a.ckpt", os.path.join(d, "c.yaml"))
assert (m.entropy_model.weight == 1).all()
''')
seed("S20", "P41", [("projects/deep_video_compression/train.py", "            image1 = images.image2_est  # images are detached\n", "            image1 = image2  # images are detached\n")],
     "a clip with two or more P-frames", "the logged second P-frame is predicted from the original instead of the decoded first one", STUB + '''
import torch, types
stub("hydra", "wandb", "pytorch_lightning", "pytorch_lightning.callbacks", "pytorch_lightning.loggers", "omegaconf", "data_module", "dvc_module", Callback=object)
sys.modules["hydra"].main = lambda **k: (lambda f: f)
sys.path.insert(0, "projects/deep_video_compression")
import train
from _utils import OutputTensors
seen = []
class M:
    device, dtype, num_pframes, training_stage, global_step = torch.device("cpu"), torch.float32, 2, "1", 0
    def compress_iframe(self, b): return b, 0.0
    class model:
        @staticmethod
        def compute_batch_loss(a, b):
            seen.append(a)
            return None, OutputTensors(None, a, b, b * 0 + 0.25)
train.WandbImageCallback(torch.rand(1, 3, 3, 2, 2)).on_validation_end(MagicMock(), M())
assert (seen[1] == 0.25).all()
''')
seed("S21", "P39", [("projects/illm/open_images_datamodule.py", "        if self.val_batch_size is not None:\n            batch_size = self.val_batch_size\n", "        if self.val_batch_size:\n            batch_size = min(self.val_batch_size, self.batch_size)\n")],
     "a validation batch size larger than the training batch size", "validation batches are silently smaller than configured", STUB + '''
import torch
stub("lightning", "lightning.pytorch", LightningDataModule=object)
sys.path.insert(0, "projects/illm")
from open_images_datamodule import OpenImagesDataModule
m = OpenImagesDataModule("x", 2, image_size=8, val_batch_size=4, workers=0, pin_memory=False)
m.eval_dataset = list(range(8))
assert [len(b) for b in m.val_dataloader()] == [4, 4]
m = OpenImagesDataModule("x", 2, image_size=8, val_batch_size=1, workers=0, pin_memory=False)
m.eval_dataset = list(range(3))
assert [len(b) for b in m.val_dataloader()] == [1, 1, 1]
''')
seed("S22", "P38", [("projects/torch_vct/model_lightning.py", "bpp_xfirst = sum(bits_per_frame[1:]) / (H * W * (T - 1))", "bpp_xfirst = (sum(bits_per_frame) - max(bits_per_frame)) / (H * W * (T - 1))")],
     "a clip whose first frame is not the most expensive one", "the rate without the first frame leaves out another frame instead", STUB + '''
import torch
from torch import nn
stub("hydra", "omegaconf", "pytorch_lightning", LightningModule=nn.Module)
sys.path.insert(0, "projects/torch_vct")
import model_lightning as ml
from datamodules.video_data_api import VideoDataset
class M(nn.Module):
    sizes = [100, 50, 20]
    def compress_video(self, b, force_cpu=False): return "x", self.sizes
    def decompress_video(self, s, bottleneck_args=None, force_cpu=False): return torch.zeros(1, 3, 3, 2, 2)
m = ml.VCTModule(M(), MagicMock())
m.log_dict = lambda *a, **k: None
m.eval()
def run(sizes):
    m.model.sizes = sizes
    return m.test_step(VideoDataset(video_tensor=torch.rand(1, 3, 3, 2, 2)), 0, run_fwd=False)[2]
assert abs(run([100, 50, 20]) - 70 / 8) < 1e-9
assert abs(run([20, 50, 100]) - 150 / 8) < 1e-9
''')
seed("S23", "P36", [("projects/illm/target_compression_module.py", "            if self.trainer.global_step < sched_step:", "            if self.trainer.global_step <= sched_step:")],
     "a training step exactly at a change of the schedule", "the new rate target or multiplier takes effect one step late", STUB + '''
import types
from torch import nn
stub("lightning", "lightning.pytorch", "hydra", "omegaconf", LightningModule=nn.Module)
sys.path.insert(0, "projects/illm")
import target_compression_module as t
f = t.TargetRateCompressionModule._get_scheduled_rate_param
g = lambda s: f(types.SimpleNamespace(trainer=types.SimpleNamespace(global_step=s)), 2.0, [3.0, 1.0], [10])
assert g(9) == 6.0 and g(10) == 2.0 and g(11) == 2.0
g2 = lambda s: f(types.SimpleNamespace(trainer=types.SimpleNamespace(global_step=s)), 2.0, [3.0, 1.0], [10, 20])
assert [g2(s) for s in (0, 9, 10, 11, 25)] == [6.0, 6.0, 2.0, 2.0, 2.0], [g2(s) for s in (0, 9, 10, 11, 25)]
''')
seed("S24", "P34", [(BBD + "bits_back_diffusion/codec.py", "            (data - self.data_min)\n            * ((1 << self.data_prec) - 1)\n", "            (data - self.data_min)\n            * (1 << self.data_prec)\n")],
     "data in the upper half of the range", "data is quantised to levels that are not the evenly spread ones, up to one above the alphabet", STUB + '''
import numpy as np, types
stub("craystack", "craystack.codecs", "craystack.bb_ans", "improved_diffusion", "improved_diffusion.gaussian_diffusion")
sys.path.insert(0, "projects/bits_back_diffusion")
from bits_back_diffusion.codec import BitsBackCodec
c = types.SimpleNamespace(data_min=-1.0, data_max=1.0, data_prec=8)
x = np.arange(256)
y = BitsBackCodec.quantize(c, x / 255 * 2 - 1)
assert (y == x).all()
''')
