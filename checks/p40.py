"""P40: training runs resume, refuse or start over as asked; restoring takes exactly the weights saved for a model."""
import importlib.util
import os
import pathlib
import shutil
import sys
import tempfile
import types

import torch
import yaml
from torch import nn
from torch.utils._python_dispatch import _disable_current_modes

from vlib import elem as E
from vlib.harness import REPO
from vlib.objarr import Num, oarr, val

import checks.p34 as P  # stand-ins for packages that are not installed

BOUNDS = ("every combination of overwrite/resume options with existing last, other and foreign files and missing directories, per training script; up to three stages in every order of declaration; saved states of up to 5 tensors with every value and every subset of "
          "missing entries; every step count up to 2^40 with 1..3 optimisers; every pretrained model with pretrained on or off; distributed loading for every rank of 1..4")
OUTSIDE = "lightning's own trainer and checkpoint format, hydra's configuration parsing, downloading, concurrent runs in one directory, torn checkpoint files"
ASSUMPTIONS = ["lightning, pytorch_lightning, hydra, omegaconf, wandb and improved_diffusion are recording stand-ins", "torch.load returns what was saved", "models are small stand-ins, except that the pretrained models are the real ones without allocated weights"]

Cfg, OmegaConf = P.Cfg, P.OmegaConf
OmegaConf.to_container = staticmethod(lambda c, **k: dict(c))
Cfg.copy = lambda self: type(self)(self)


class Struct(Cfg):
    """a configuration that takes no new keys until it is told to"""

    def update(self, *a, **k):
        new = dict(*a, **k)
        if not self.__dict__.get("open") and any(n not in self for n in new):
            raise AttributeError("key not in struct")
        super().update(new)


OmegaConf.set_struct = staticmethod(lambda c, v: c.__dict__.__setitem__("open", not v))
LOG = []


class Rec:
    def __init__(self, *a, **k):
        self.a, self.k = a, k
        LOG.append((type(self).__name__, self))


class Trainer(Rec):
    global_rank = 0

    def fit(self, *a, **k):
        LOG.append(("fit", self, a, k))
        if PROBE:
            PROBE[0](self)

    def test(self, *a, **k):
        LOG.append(("test", self, a, k))


PROBE = []


class Ckpt(Rec):
    pass


class Light(nn.Module):
    device = torch.device("cpu")

    def __init__(self, *a, **k):
        super().__init__()


class Logger(Rec):
    pass


class Mon(Rec):
    pass


for nm in ("lightning.pytorch", "pytorch_lightning"):
    m = P.mod(nm, LightningModule=Light, LightningDataModule=object, Callback=Rec, Trainer=Trainer, seed_everything=lambda *a, **k: None)
    m.callbacks = P.mod(nm + ".callbacks", LearningRateMonitor=Mon, ModelCheckpoint=Ckpt)
    m.loggers = P.mod(nm + ".loggers", WandbLogger=Logger)
    m.loggers.wandb = P.mod(nm + ".loggers.wandb", WandbLogger=Logger)
    m.strategies = P.mod(nm + ".strategies", DDPStrategy=Mon)
P.mod("lightning").pytorch = sys.modules["lightning.pytorch"]
sys.modules["wandb"].Image = Rec
P.hyd.main = lambda *a, **k: (lambda f: f)


def script(name, *path):
    d = os.path.join(REPO, "projects", *path[:-1])
    sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location(name, os.path.join(d, path[-1]))
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


ILLM = script("p40_illm_train", "illm", "train.py")
VCT = script("p40_vct_train", "torch_vct", "model_train.py")
CK = script("p40_vct_loaders", "torch_vct", "utils", "checkpoint_loaders.py")
DVC = script("p40_dvc_train", "deep_video_compression", "train.py")
SU = P.SU
hyd = P.hyd


class Scratch:
    """a directory of its own to run in"""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = pathlib.Path(os.path.realpath(tempfile.mkdtemp(prefix="p40")))
        os.chdir(self.dir)
        LOG.clear()
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        PROBE.clear()
        shutil.rmtree(self.dir, ignore_errors=True)


NAMES = ["last.ckpt", "epoch=3-step=17.ckpt", "notes.txt"]


def prepare(h, d, tag=""):
    """some of the files are there already"""
    have = {n: h.pybool("%s%s" % (tag, n)) for n in NAMES}
    exists = any(have.values()) or h.pybool(tag + "dir")
    if exists:
        d.mkdir(parents=True, exist_ok=True)
    for n in NAMES:
        if have[n]:
            (d / n).write_text(n)
    return have, exists


def verdict(h, d, have, exists, over, res, raised, started, ckpt):
    """refused, resumed or started anew"""
    ck = have["last.ckpt"] or have[NAMES[1]]
    refuse = ck and not over and not res
    h.claim("refused exactly when there are checkpoints and neither option is set", (raised is not None) == refuse and (raised is None or isinstance(raised, RuntimeError)))
    h.claim("a refused run trains nothing", not (refuse and started))
    if not refuse and raised is None:
        want = have["last.ckpt"] and not over
        h.claim("training is started", started)
        h.claim("the run continues from the last checkpoint exactly when it is there and not to be ignored", (ckpt is not None) == want)
        if want and ckpt is not None:
            h.claim("from that checkpoint", os.path.realpath(str(ckpt)) == str(d / "last.ckpt"))
        h.claim("the directory for checkpoints exists", d.is_dir())
    h.claim("existing files are left alone", all((d / n).exists() == have[n] and (not have[n] or (d / n).read_text() == n) for n in NAMES))


def options(h):
    return h.pybool("overwrite"), h.pybool("resume")


# ----------------------------------------------------------------- image training
def illm_fetch(absolute):
    def body(h):
        over, res = options(h)
        with Scratch() as s:
            d = s.dir / "a" / "checkpoints"
            have, exists = prepare(h, d)
            cfg = Cfg(checkpoint=Cfg(overwrite=over, resume_training=res, callback=Cfg(dirpath=str(d) if absolute else "a/checkpoints")))
            raised, ckpt = None, None
            try:
                ckpt = ILLM.fetch_checkpoint(cfg)
            except RuntimeError as e:
                raised = e
            verdict(h, d, have, exists, over, res, raised, raised is None, ckpt)
            h.claim("a path that stays valid when the working directory changes", ckpt is None or os.path.isabs(str(ckpt)))
    return body


class Module(nn.Module):
    """stands in for the training module"""

    def __init__(self, n=1):
        super().__init__()
        self.n, self.events = n, []
        self.model = nn.Linear(2, 2)

    def configure_optimizers(self):
        return [object() for _ in range(self.n)], [object() for _ in range(self.n)]

    def update_test_dataset_name(self, name):
        self.events.append(("name", name))


def illm_cfg(over=False, res=True, mode="train", steps=10, extra=()):
    return Cfg(seed=1, data="data", training_mode=mode, ngpu=1, logger=Cfg(group="dev"), trainer=Cfg(max_steps=steps, precision=32),
               checkpoint=Cfg(overwrite=over, resume_training=res, callback=Cfg(dirpath="checkpoints", save_last=True)), **dict(extra))


def illm_main(mode):
    def body(h):
        over, res = options(h)
        with Scratch() as s:
            d = s.dir / "checkpoints"
            have, exists = prepare(h, d)
            module = Module(h.pyint("optimisers", 1, 3))
            saved = {"model.weight": torch.ones(2, 2) * 3, "model.bias": torch.ones(2) * 5, "discriminator.weight": torch.zeros(2, 2)}
            names = ["kodak", "clic", "div2k"][:h.pyint("datasets", 1, 3)]
            cfg = illm_cfg(over, res, mode, extra={"test_dataloaders": Cfg({"k%d" % i: Cfg(name=n, class_params="loader-" + n) for i, n in enumerate(names)})})
            cfg.ngpu = h.pyint("ngpu", 0, 2)
            hyd.utils.instantiate = lambda c, *a, **k: c
            loads = []

            def load(p, *a, **k):
                loads.append(os.path.realpath(str(p)))
                return {"state_dict": dict(saved)}
            real, was = torch.load, (ILLM.build_module, ILLM.HAS_WANDB)
            torch.load = load
            ILLM.build_module, ILLM.HAS_WANDB = lambda c: module, False
            raised, other = None, None
            try:
                with _disable_current_modes():
                    ILLM.main(cfg)
            except RuntimeError as e:
                raised = e
            except (AssertionError, ValueError) as e:
                other = e
            finally:
                torch.load = real
                ILLM.build_module, ILLM.HAS_WANDB = was
            fits, tests = [x for x in LOG if x[0] == "fit"], [x for x in LOG if x[0] == "test"]
            if mode == "train":
                k = fits[0][3] if fits else {}
                h.claim("nothing else fails", other is None)
                verdict(h, d, have, exists, over, res, raised, len(fits) == 1, k.get("ckpt_path"))
                h.claim("training does not test", not tests)
                if fits:
                    h.claim("the given module is trained on the given data", (fits[0][2] + (k.get("model"),))[0] is module and k.get("datamodule") == "data")
                    tr = fits[0][1]
                    h.claim("for the given number of steps of every optimiser", tr.k["max_steps"] == 10 * module.n and tr.k["precision"] == 32)
                    cks = [c for c in tr.k["callbacks"] if isinstance(c, Ckpt)]
                    h.claim("checkpoints go where the next run looks for them", len(cks) == 1 and cks[0].k == {"dirpath": "checkpoints", "save_last": True})
                return
            h.claim("testing trains nothing", not fits)
            ok = raised is None and have["last.ckpt"] and not over
            if cfg.ngpu > 1 or not ok:
                h.claim("testing needs a checkpoint and at most one device", (other is not None or raised is not None) and not tests)
                return
            h.claim("nothing fails", other is None)
            h.claim("the last checkpoint is tested", loads == [str(d / "last.ckpt")] and bool((module.model.weight == 3).all()) and bool((module.model.bias == 5).all()))
            h.claim("in evaluation mode", not module.training and not module.model.training)
            h.claim("every dataset once, under its own name", [e[1] for e in module.events] == names and [t[3].get("dataloaders") or list(t[2][1:]) for t in tests] == [["loader-" + n] for n in names])
            h.claim("on the loaded model", all((t[3].get("model") or t[2][0]) is module for t in tests))
    return body


def steps(n):
    """every step count"""
    def body(h):
        k = h.tensor("steps", (), torch.int64, lo=1, hi=1 << 40)
        k = oarr(k)[()] if h.symbolic else int(k)
        module = Module(n)
        cfg = illm_cfg(steps=k)
        with Scratch():
            was = ILLM.HAS_WANDB
            ILLM.HAS_WANDB = False
            try:
                with _disable_current_modes():
                    tr = ILLM.build_trainer(cfg, None, module)
            finally:
                ILLM.HAS_WANDB = was
            got = tr.k["max_steps"]
        h.claim("every optimiser gets the configured number of steps", E.eq(val(got), val(k * n)) if h.symbolic else got == k * n)
        h.claim("the configuration itself is unchanged", cfg.trainer.max_steps is k)
    return body


if not hasattr(Num, "__ceil__"):
    Num.__ceil__ = Num.__floor__ = Num.__trunc__ = Num.__round__ = lambda self, *a: self  # whole numbers only, in this file


# ----------------------------------------------------------------- video transformer
def vct(h):
    over, res = options(h)
    test = h.pybool("test")
    with Scratch() as s:
        d = s.dir / "checkpoints"
        have, exists = prepare(h, d)
        made = []
        net = nn.Linear(1, 1)

        class Data:
            def __init__(self, n):
                self.n = n

            def setup(self, stage=None):
                pass

            def train_dataloader(self):
                return [self.n + "-train"]

            def val_dataloader(self):
                return [self.n + "-val"]

        def instantiate(c, *a, **k):
            made.append(c)
            return net if c == "model" else Data(c)
        hyd.utils.instantiate = instantiate
        cfg = Cfg(seed=None, ngpu=0, model="model", datamodule="data", logger=Cfg(), optim="o", scheduler="s", training_loop=Cfg(distortion_lambda=1.0, lr_annealing_frequency=1), trainer=Cfg(max_steps=3), tester=Cfg(limit=1),
                  checkpoint=Cfg(overwrite=over, resume_training=res, callback=Cfg(dirpath="checkpoints", save_last=True)))
        if test:
            cfg.test_datamodule = "testdata"
        real = torch.distributed.destroy_process_group
        torch.distributed.destroy_process_group = lambda *a, **k: None
        raised = None
        try:
            with _disable_current_modes():
                VCT.main(cfg)
        except RuntimeError as e:
            raised = e
        finally:
            torch.distributed.destroy_process_group = real
        fits, tests = [x for x in LOG if x[0] == "fit"], [x for x in LOG if x[0] == "test"]
        k = fits[0][3] if fits else {}
        verdict(h, d, have, exists, over, res, raised, len(fits) == 1, k.get("ckpt_path"))
        if raised is None and fits:
            m = k.get("model") if "model" in k else fits[0][2][0]
            h.claim("the configured model is trained on the configured data", m.model is net and k.get("datamodule").n == "data")
            h.claim("with the configured trainer", fits[0][1].k.get("max_steps") == 3)
            h.claim("and tested afterwards exactly when test data is configured", len(tests) == int(test) and (not test or ((tests[0][2] + (tests[0][3].get("model"),))[0] is m and tests[0][3]["datamodule"].n == "testdata" and not m.training)))


# ----------------------------------------------------------------- video codec stages
class Stage:
    def __init__(self, model, **k):
        self.model, self.k = model, k
        LOG.append(("module", self))

    def recompose_model(self, model):
        self.given = model
        return ("after", self.k["training_stage"], model)


def dvc_stage(own):
    def body(h):
        over, res = options(h)
        with Scratch() as s:
            root = s.dir / "root"
            d = (s.dir / "elsewhere" / "x") if own else root / "s2_flow"
            have, exists = prepare(h, d)
            (root / "s1_motion").mkdir(parents=True)
            (root / "s1_motion" / "last.ckpt").write_text("other")
            st = Cfg(save_dir=str(d) if own else None, module=Cfg(training_stage="2", lr=2), trainer=Cfg(max_epochs=7))
            cfg = Cfg(training_stages=Cfg(s2_flow=st, s1_motion=Cfg(save_dir=None, module=Cfg(training_stage="1"), trainer=Cfg())), module=Struct(lr=1, lam=3), trainer=Struct(max_epochs=1, gpus=0),
                      checkpoint=Cfg(overwrite=over, resume_training=res, model_checkpoint=Cfg(save_last=True, save_top_k=1)))
            was = DVC.DvcModule
            DVC.DvcModule = Stage
            raised, out = None, None
            try:
                out = DVC.run_training_stage("s2_flow", root, "model", "data", "logger", "images", cfg)
            except RuntimeError as e:
                raised = e
            finally:
                DVC.DvcModule = was
            fits = [x for x in LOG if x[0] == "fit"]
            ck = fits[0][1].k.get("resume_from_checkpoint") or fits[0][3].get("ckpt_path") if fits else None
            verdict(h, d, have, exists, over, res, raised, len(fits) == 1, ck)
            h.claim("other stages' checkpoints are left alone", (root / "s1_motion" / "last.ckpt").read_text() == "other")
            if raised is None and fits:
                tr, m = fits[0][1], [x for x in LOG if x[0] == "module"][0][1]
                h.claim("stage options override the general ones", m.k == {"training_stage": "2", "lr": 2, "lam": 3} and tr.k["max_epochs"] == 7 and tr.k["gpus"] == 0)
                h.claim("the stage trains the model it was given on the given data", m.model == "model" and (fits[0][2] + (fits[0][3].get("model"),))[0] is m and (fits[0][3].get("datamodule") or fits[0][2][-1]) == "data")
                cks = [c for c in tr.k["callbacks"] if isinstance(c, Ckpt)]
                h.claim("checkpoints go to the stage's own directory", len(cks) == 1 and os.path.realpath(str(cks[0].k["dirpath"])) == str(d) and cks[0].k["save_last"] is True and cks[0].k["save_top_k"] == 1)
                h.claim("the trained parts are put back into the model", out == ("after", "2", "model"))
            h.claim("the configurations are not modified", cfg.module == {"lr": 1, "lam": 3} and st.module == {"training_stage": "2", "lr": 2} and cfg.trainer == {"max_epochs": 1, "gpus": 0})
    return body


class Vimeo:
    def __init__(self, **k):
        self.k = k

    def setup(self, *a, **k):
        self.val_dataset = [torch.full((1,), float(i)) for i in range(5)]


def dvc_main(h):
    """stages run in order, each on what the last one returned"""
    names = ["s1_a", "s2_b", "s3_c"]
    order = []
    for i in range(3):
        order.append(h.pyint("o%d" % i, 0, 2))
        h.assume(len(set(order)) == len(order))
    stop = h.pyint("stop", 0, 3)
    with Scratch() as s:
        st = {names[i]: Cfg(save_dir=None, module=Cfg(training_stage=names[i]), trainer=Cfg()) for i in order}
        cfg = Cfg(training_stages=Cfg(st), module=Cfg(), trainer=Cfg(), ngpu=0, data=Cfg(data_dir="d"), model=Cfg(coder_channels=4), logging=Cfg(save_root=str(s.dir / "r"), image_seed=1, num_log_images=2),
                  checkpoint=Cfg(overwrite=False, resume_training=True, model_checkpoint=Cfg(save_last=True)))
        was = DVC.DvcModule, DVC.DVC, DVC.Vimeo90kSeptupletLightning
        DVC.DvcModule, DVC.DVC, DVC.Vimeo90kSeptupletLightning = Stage, lambda **k: ("new", k["coder_channels"]), Vimeo
        done = []

        def probe(tr):
            d = [c for c in tr.k["callbacks"] if isinstance(c, Ckpt)][0].k["dirpath"]
            if len(done) == stop and not probe.stopped:
                probe.stopped = True
                raise KeyboardInterrupt
            done.append(str(d))
            pathlib.Path(d, "last.ckpt").write_text("x")
        probe.stopped = stop == 3
        PROBE.append(probe)
        try:
            with _disable_current_modes():
                for _ in range(2):
                    try:
                        LOG.clear()
                        DVC.main(cfg)
                    except KeyboardInterrupt:
                        h.claim("stopped", True)
                        continue
        finally:
            DVC.DvcModule, DVC.DVC, DVC.Vimeo90kSeptupletLightning = was
        ms = [x[1] for x in LOG if x[0] == "module"]
        fits = [x for x in LOG if x[0] == "fit"]
        h.claim("every stage runs once, in order of name", [m.k["training_stage"] for m in ms] == names)
        model = ("new", 4)
        for i, m in enumerate(ms):
            h.claim("on the model the last stage returned", m.model == model and m.given == model)
            model = ("after", m.k["training_stage"], model)
            ck = fits[i][1].k.get("resume_from_checkpoint") or fits[i][3].get("ckpt_path")
            want = stop == 3 or i < stop
            h.claim("stages that were interrupted or done resume from their own checkpoint", (ck is not None) == want and (not want or os.path.realpath(str(ck)) == str(s.dir / "r" / names[i] / "last.ckpt")))


# ----------------------------------------------------------------- restoring weights
class Sink(nn.Module):
    """a model that records what it is given"""

    def __init__(self, upd=None):
        super().__init__()
        self.got, self.order = [], []
        if upd:
            setattr(self, upd, types.SimpleNamespace(update=lambda *a, **k: self.order.append("update")))

    def load_state_dict(self, sd, *a, **k):
        self.got.append((dict(sd), a, k))
        self.order.append("load")

    def eval(self):
        self.order.append("eval")
        return super().eval()


KEYS = ["model.a", "model.model.b", "model.encoder.model.c", "modelx.a", "discriminator.model.a", "model"]


def saved(h):
    return {k: h.tensor("w%d" % i, (2,), torch.float32) for i, k in enumerate(KEYS)}


def restored(h, got, sd):
    want = {k[len("model."):]: v for k, v in sd.items() if k.startswith("model.")}
    h.claim("exactly the model's own weights, under their own names", set(got) == set(want))
    for k in want:
        if k in got:
            h.claim("with the saved values", h.eq(got[k], want[k]))


def with_load(f, content):
    real = torch.load
    seen = []

    def load(p, *a, **k):
        seen.append(str(p))
        return content() if callable(content) else content
    torch.load = load
    try:
        return f(), seen
    finally:
        torch.load = real


def illm_state(h):
    sd = saved(h)
    got, seen = with_load(lambda: ILLM.pretrained_state_dict("x/y.ckpt"), {"state_dict": dict(sd), "epoch": 3})
    restored(h, got, sd)
    h.claim("of the given file", seen == ["x/y.ckpt"])
    m = Sink()
    out, seen = with_load(lambda: ILLM.configure_and_load_state_dict(m, Cfg(path="p.ckpt")), {"state_dict": dict(sd)})
    h.claim("loaded once into the given model", out is m and len(m.got) == 1 and seen == ["p.ckpt"])
    restored(h, m.got[0][0], sd)


def illm_strict(h):
    """a state that does not fit the model is refused"""
    with _disable_current_modes():
        m = nn.Linear(2, 2)
        sd = {"model.weight": torch.ones(2, 2), "model.bias": torch.ones(2), "model.extra": torch.ones(1)}
        have = {k: h.pybool(k) for k in sd}
        shape = h.pybool("shape")
        if shape:
            sd["model.bias"] = torch.ones(3)
        sd = {k: v for k, v in sd.items() if have[k]}
        ok = have["model.weight"] and have["model.bias"] and not have["model.extra"] and not shape
        bad = None
        try:
            with_load(lambda: ILLM.configure_and_load_state_dict(m, Cfg(path="p")), {"state_dict": sd})
        except RuntimeError as e:
            bad = e
    h.claim("refused exactly when the names or shapes do not match", (bad is None) == ok)


def vct_load(upd, nested):
    def body(h):
        sd = saved(h)
        with Scratch() as s:
            (s.dir / "c.yaml").write_text(yaml.safe_dump({"model": {"value": {"x": 1}}}))
            m = Sink(upd)
            asked = []
            hyd.utils.instantiate = lambda c, *a, **k: asked.append(c) or m
            copy = h.pybool("copy")
            was = torch.save
            saves = []
            torch.save = lambda o, p, *a, **k: saves.append((dict(o), str(p)))
            try:
                out, seen = with_load(lambda: CK.load_model_checkpoint_from_config("some/dir", "n.ckpt", str(s.dir / "c.yaml"), save_copy_of_ckpt=copy), lambda: {"state_dict": dict(sd)} if nested else dict(sd))
            finally:
                torch.save = was
            h.claim("the configured model", out is m and [dict(a) for a in asked] == [{"x": 1}])
            h.claim("from the given checkpoint", set(seen) == {"some/dir/n.ckpt"})
            h.claim("restored once", len(m.got) == 1)
            if len(m.got) == 1:
                restored(h, m.got[0][0], sd)
            h.claim("coding tables are rebuilt after loading", m.order.count("update") == int(upd is not None) and (upd is None or m.order.index("load") < m.order.index("update")))
            h.claim("in evaluation mode", not out.training)
            h.claim("a copy is kept exactly when asked for, beside the checkpoint", len(saves) == int(copy) and (not copy or (set(saves[0][0]) == set(sd) and saves[0][1].startswith("some/dir/") and saves[0][1] != "some/dir/n.ckpt")))
            missing = None
            try:
                with_load(lambda: CK.load_model_checkpoint_from_config("some/dir", "n.ckpt", str(s.dir / "none.yaml")), {})
            except FileNotFoundError as e:
                missing = e
            h.claim("a missing configuration is reported", missing is not None)
    return body


# ----------------------------------------------------------------- building the module
def illm_build(h):
    gan, proj, pre, pre_ae = h.pybool("gan"), h.pybool("projector"), h.pybool("pretrained"), h.pybool("pretrained_projector")
    bad = h.pybool("bad")
    with _disable_current_modes():
        objs = {"model": nn.Linear(2, 2), "disc": nn.Linear(2, 2), "ae": nn.Linear(2, 2), "dist": nn.MSELoss(), "rate": "rate", "dl": "dl", "gl": "gl"}
        proj_mod = nn.Sequential(objs["ae"], nn.Dropout())
        asked = []

        def instantiate(c, *a, **k):
            key = c["_target_"]
            asked.append((key, a))
            return proj_mod if key == "proj" else objs[key]
        hyd.utils.instantiate = instantiate
        t = lambda n: Cfg(_target_=n)  # noqa: E731
        cfg = Cfg(model=t("model"), distortion_loss=Cfg() if bad else t("dist"), rate_target=t("rate"), optimizer="opt", lightning_module=Cfg(distortion_lam=2.0))
        if gan:
            cfg.discriminator = Cfg(model=t("disc"), discriminator_loss=t("dl"), generator_loss=t("gl"))
        if proj:
            cfg.latent_projector = Cfg(autoencoder=t("ae"), projector=t("proj"))
        if pre:
            cfg.pretrained_autoencoder = Cfg(path="auto.ckpt")
        if pre_ae:
            cfg.pretrained_latent_autoencoder = Cfg(path="proj.ckpt")
        made = []
        was = ILLM.TargetRateCompressionModule, ILLM.GANCompressionModule, torch.load
        ILLM.TargetRateCompressionModule = lambda **k: made.append(("rate", k)) or made[-1]
        ILLM.GANCompressionModule = lambda **k: made.append(("gan", k)) or made[-1]
        vals = {"auto.ckpt": 3.0, "proj.ckpt": 7.0}
        loads = []

        def load(p, *a, **k):
            loads.append(str(p))
            return {"state_dict": {"model.weight": torch.full((2, 2), vals[str(p)]), "model.bias": torch.zeros(2)}}
        torch.load = load
        err = None
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = ILLM.build_module(cfg)
        except ValueError as e:
            err = e
        finally:
            ILLM.TargetRateCompressionModule, ILLM.GANCompressionModule, torch.load = was
    h.claim("refused exactly without a distortion loss", (err is not None) == bad)
    if bad or err is not None:
        return
    h.claim("one module, adversarial exactly when a discriminator is configured", len(made) == 1 and out is made[0] and made[0][0] == ("gan" if gan else "rate"))
    k = made[0][1]
    h.claim("of the configured parts", k["model"] is objs["model"] and k["target_rate_config"] == "rate" and k["distortion_loss"] is objs["dist"] and k["optimizer_config"] == "opt" and k["distortion_lam"] == 2.0)
    h.claim("the model starts from the pretrained weights exactly when configured", bool((objs["model"].weight == 3.0).all()) == pre and ("auto.ckpt" in loads) == pre and objs["model"].weight.requires_grad)
    if gan:
        h.claim("discriminator and its losses", k["discriminator"] is objs["disc"] and k["discriminator_loss"] == "dl" and k["generator_loss"] == "gl" and objs["disc"].weight.requires_grad)
        h.claim("latent projector exactly when configured", (k["latent_projector"] is proj_mod) == proj and (proj or k["latent_projector"] is None))
        if proj:
            h.claim("frozen and in evaluation mode", not any(p.requires_grad for p in proj_mod.parameters()) and not any(q.training for q in proj_mod.modules()))
            h.claim("with its own pretrained weights", bool((objs["ae"].weight == 7.0).all()) == pre_ae and [a for n, a in asked if n == "proj"][0][0] is objs["ae"])


# ----------------------------------------------------------------- diffusion training
def loop(h):
    """parameters are loaded by the first process and shared with the others"""
    rank = h.pyint("rank", 0, 3)
    resume, ema = h.pybool("resume"), h.pybool("ema")
    sd, esd = {"w": h.tensor("sw", (2,), torch.float32)}, {"w": h.tensor("ew", (2,), torch.float32)}
    master = [h.tensor("mw", (2,), torch.float32)]
    t = SU.TrainLoop.__new__(SU.TrainLoop)
    t.resume_checkpoint = "dir/model000120.pt" if resume else ""
    t.resume_step = 0
    t.model = Sink()
    t.model.parameters = lambda: master
    t.master_params = master
    t._state_dict_to_master_params = lambda s: [s["w"]]
    synced, finds = [], []
    dist_was = torch.distributed.get_rank
    torch.distributed.get_rank = lambda *a: rank
    P.imp.dist_util.sync_params = lambda ps: synced.append(list(ps))
    P.imp.dist_util.dev = lambda: torch.device("cpu")
    P.imp.train_util.find_ema_checkpoint = lambda main, step, rate: finds.append((main, step, rate)) or ("dir/ema_0.9_000120.pt" if ema and main else None)
    try:
        def go():
            t._load_and_sync_parameters()
            return t._load_ema_parameters(0.9)
        real = torch.load
        loads = []
        torch.load = lambda p, *a, **k: loads.append(str(p)) or (esd if "ema" in str(p) else sd)
        import copy
        was, copy.deepcopy = copy.deepcopy, lambda x, *a: list(x)
        try:
            out = go()
        finally:
            torch.load, copy.deepcopy = real, was
    finally:
        torch.distributed.get_rank = dist_was
    h.claim("training continues at the step of the checkpoint", t.resume_step == (120 if resume else 0))
    first = rank == 0
    h.claim("the first process restores the model exactly when resuming", len(t.model.got) == int(first and resume))
    for s, *_ in t.model.got:
        h.claim("with the saved weights", h.eq(s["w"], sd["w"]))
    h.claim("both sets of parameters are shared", len(synced) == 2 and synced[0][0] is master[0] and synced[1] is not None and len(synced[1]) == 1)
    h.claim("average for the resumed step and rate", finds == [(t.resume_checkpoint, t.resume_step, 0.9)])
    want = esd["w"] if first and resume and ema else master[0]
    h.claim("the running average is the saved one, or starts from the model", h.eq(out[0], want))
    h.claim("and it is what is shared", h.eq(synced[1][0], want))
    h.claim("only the first process reads", (not loads) if not first else len(loads) == int(resume) + int(resume and ema))


def setup(h):
    train, ranks, two = h.pybool("train"), h.pybool("ranks"), h.pyint("rank", 0, 1)
    w = h.tensor("w", (2,), torch.float32)
    with Scratch() as s:
        for i in (5, 30, 7):
            (s.dir / ("model%06d.pt" % i)).touch()
            (s.dir / ("ema_0.9999_%06d.pt" % i)).touch()
        P.LOG["dir"] = str(s.dir)
        net = Sink()
        made, conf, loads = [], [], []
        SU.instantiate = lambda c, *a, **k: made.append(c) or (net if c == "model" else c)
        data = Cfg(train=Cfg(data_dir="tr", batch_size=2), val=Cfg(data_dir="va", batch_size=3))
        cfg = Cfg(data=data, model="model", diffusion="diffusion", trainer=Cfg(resume_checkpoint=None), evaluator=Cfg(model_path=None, num_samples=7))
        P.imp.logger.configure = lambda dir=None, **k: conf.append(dir)
        P.imp.logger.get_current = lambda: None
        P.imp.dist_util.setup_dist = lambda: None
        P.imp.dist_util.dev = lambda: torch.device("cpu")
        P.imp.dist_util.load_state_dict = lambda p, **k: loads.append(str(p)) or {"w": w}
        was = torch.distributed.get_rank, torch.distributed.get_world_size
        torch.distributed.get_rank, torch.distributed.get_world_size = lambda *a: two, lambda *a: 2
        try:
            out = SU.setup(cfg, train=train, log_dir="logs", log_ranks=ranks)
        finally:
            torch.distributed.get_rank, torch.distributed.get_world_size = was
    h.claim("model, diffusion and data of the run's own split", out[0] is net and out[1] == "diffusion" and out[2] is (data.train if train else data.val))
    h.claim("in training mode exactly when training", net.training == train)
    h.claim("evaluation uses the latest averaged weights, training none", len(net.got) == int(not train))
    if not train and net.got:
        h.claim("the latest", [os.path.basename(p) for p in loads] == ["ema_0.9999_000030.pt"])
        h.claim("loaded as saved", h.eq(net.got[0][0]["w"], w))
    h.claim("training resumes from the latest checkpoint", not train or os.path.basename(str(cfg.trainer.resume_checkpoint)) == "model000030.pt")
    h.claim("processes log apart exactly when asked", len(conf) == 1 and (conf[0] == "logs") == (not ranks) and (not ranks or conf[0] != "logs"))
    P_CONF.setdefault((ranks,), {})[two] = conf[0]
    a = P_CONF[(ranks,)]
    h.claim("into different directories", not ranks or len(set(a.values())) == len(a))


P_CONF = {}

# ----------------------------------------------------------------- pretrained models
RATES = {"msillm_quality_vlo1": "msillm_target_0.00218bpp", "msillm_quality_vlo2": "msillm_target_0.00438bpp"}
for _p in ("msillm", "noganms"):
    for _i, _r in enumerate(["0.035", "0.07", "0.14", "0.3", "0.45", "0.9"]):
        RATES["%s_quality_%d" % (_p, _i + 1)] = "%s_target_%sbpp" % (_p, _r)
RATES["vqvae_xcit_p8_ch64_cb1024_h8"] = "vqvae_xcit_p8_ch64_cb1024_h8"


def hub():
    spec = importlib.util.spec_from_file_location("p40_hubconf", os.path.join(REPO, "hubconf.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


HUB = hub()


def zoo(name):
    def body(h):
        import neuralcompression.zoo as Z
        entry = h.pyint("entry", 0, 1)
        mode = h.pyint("pretrained", 0, 2)
        fn = getattr(Z, name) if entry == 0 else getattr(HUB, ("msillm_" if name.startswith("vqvae") else "") + name)
        kw = [{}, {"pretrained": False}, {"pretrained": True}][mode]
        want = mode == 2 or (mode == 0 and entry == 1)
        marker = {"marker": torch.ones(1)}
        urls, loads = [], []
        was = torch.hub.load_state_dict_from_url, nn.Module.load_state_dict
        torch.hub.load_state_dict_from_url = lambda url, *a, **k: urls.append((url, k.get("map_location"))) or marker
        nn.Module.load_state_dict = lambda self, sd, *a, **k: loads.append((self, sd, a, k))
        try:
            with _disable_current_modes(), torch.device("meta"):
                m = fn(**kw)
        finally:
            torch.hub.load_state_dict_from_url, nn.Module.load_state_dict = was
        cls = "VqVaeXCiTAutoencoder" if name.startswith("vqvae") else "HiFiCAutoencoder"
        h.claim("a model of its family", type(m).__name__ == cls)
        h.claim("weights are fetched exactly when asked for (the hub asks by default)", len(urls) == int(want))
        h.claim("and loaded completely", [(a is m, b is marker, a2, k.get("strict", True)) for a, b, a2, k in loads] == ([(True, True, (), True)] if want else []))
        if urls:
            h.claim("those published for this rate", urls[0][0].rsplit("/", 1)[-1] == RATES[name] + ".ckpt" and urls[0][0].startswith("https://"))
            h.claim("onto the CPU, wherever they were saved", str(urls[0][1]) == "cpu")
    return body


def instances(tier):
    out = [{"name": "resume/image-%s" % ("absolute" if a else "relative"), "group": "resume", "body": illm_fetch(a), "validate": 2, "max_paths": 4000} for a in (True, False)]
    out += [{"name": "resume/image-main", "group": "resume", "body": illm_main("train"), "validate": 2, "max_paths": 9000, "budget": 200},
            {"name": "test/image-main", "group": "test", "body": illm_main("test"), "validate": 2, "max_paths": 9000, "budget": 200},
            {"name": "resume/transformer", "group": "resume", "body": vct, "validate": 2, "max_paths": 4000},
            {"name": "resume/stage", "group": "resume", "body": dvc_stage(False), "validate": 2, "max_paths": 4000},
            {"name": "resume/stage-own-directory", "group": "resume", "body": dvc_stage(True), "validate": 2, "max_paths": 4000},
            {"name": "stages", "body": dvc_main, "validate": 2, "max_paths": 4000}]
    for n in (1, 2, 3):
        out.append({"name": "steps/%d" % n, "group": "steps", "body": steps(n), "validate": 2})
    out += [{"name": "weights/image", "group": "weights", "body": illm_state, "validate": 2}, {"name": "weights/fit", "group": "weights", "body": illm_strict, "validate": 2, "max_paths": 4000}]
    for u in ("bottleneck", "entropy_model", None):
        for nested in (True, False):
            out.append({"name": "weights/transformer-%s-%s" % (u, "nested" if nested else "flat"), "group": "weights", "body": vct_load(u, nested), "validate": 2})
    out += [{"name": "build", "body": illm_build, "validate": 2, "max_paths": 4000}, {"name": "diffusion/parameters", "group": "diffusion", "body": loop, "validate": 2}, {"name": "diffusion/setup", "group": "diffusion", "body": setup, "validate": 2}]
    for n in RATES:
        out.append({"name": "zoo/" + n, "group": "zoo", "body": zoo(n), "validate": 2})
    return out
