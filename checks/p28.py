"""P28: the command line tools pass the user's settings through unchanged."""
import contextlib
import inspect
import io
import os
import pathlib
import shutil
import subprocess
import sys

from pv.core import Result, Sub
from pv.gen import require, st, torch

PROP = "P28"
RULE = (
    "Cases are command lines of dattri_retrain (any supported data set and "
    "model, mode, and any part of the options, in any order, with and without "
    "partitions and extra parameters) run in process with recording stand-ins "
    "for data sets and retraining, and of the nanoGPT tool with a recording "
    "stand-in for the processes it starts, whose configuration files are "
    "executed. What is recorded is compared with the command line. "
    "Non-trivial: at least three options are given."
)
ASSUMPTIONS = ["Options are given in the documented formats."]

PAIRS = [("mnist", "lr"), ("mnist", "mlp"), ("cifar2", "resnet9"),
         ("imagenet", "resnet18"), ("maestro", "musictransformer")]
REC = {}


class Big(torch.utils.data.Dataset):
    def __init__(self, name, train):
        self.name, self.train = name, train

    def __len__(self):
        return 9000 if self.train else 700

    def __getitem__(self, i):
        return torch.tensor([float(i)]), i


def tool():
    """The module, imported with recording stand-ins below it."""
    if "module" in REC:
        return REC["module"]
    import importlib
    from dattri.model_util import retrain
    spots = {"mnist": ("create_mnist_dataset", ["lr:train_mnist_lr",
                                                "mlp:train_mnist_mlp"]),
             "cifar": ("create_cifar2_dataset", ["resnet9:train_cifar_resnet9"]),
             "imagenet": ("create_imagenet_dataset",
                          ["resnet18:train_imagenet_resnet18"]),
             "maestro": ("create_maestro_datasets",
                         ["musictransformer:train_maestro_musictransformer"])}
    for pkg, (maker, trains) in spots.items():
        mod = importlib.import_module("dattri.benchmark.datasets." + pkg)
        name = "cifar2" if pkg == "cifar" else pkg

        def make(path, *a, _n=name, **kw):
            REC["made"].append((_n, str(path), a, kw))
            return Big(_n, True), Big(_n, False)

        setattr(mod, maker, make)
        for t in trains:
            model, fn = t.split(":")

            def train(loader, *a, **kw):
                raise AssertionError("trained outside of retraining")

            train.__name__ = fn
            REC.setdefault("trainers", {})[name, model] = train
            setattr(mod, fn, train)
    for mode in ("loo", "lds"):
        real = getattr(retrain, "retrain_" + mode)

        def stand(*a, _m=mode, _s=inspect.signature(real), **kw):
            b = _s.bind(*a, **kw)
            b.apply_defaults()
            args = dict(b.arguments)
            args.update(args.pop("kwargs", {}))
            REC["ran"].append((_m, args))

        setattr(retrain, "retrain_" + mode, stand)
    REC["module"] = importlib.import_module("dattri.script.dattri_retrain")
    return REC["module"]


@st.composite
def cases(draw):
    data, model = draw(st.sampled_from(PAIRS))
    c = {"data": data, "model": model,
         "mode": draw(st.sampled_from(["loo", "lds"])), "opt": {}}
    o = c["opt"]
    if draw(st.booleans()):
        o["train_subset"] = draw(st.sampled_from([-1, 1, 7, 100, 4999, 5000,
                                                  9000]))
    if draw(st.booleans()):
        o["save_path"] = draw(st.sampled_from(["out", "a b/c", "."]))
    if draw(st.booleans()):
        o["data_path"] = draw(st.sampled_from(["data", "x/y", "with space"]))
    if draw(st.booleans()):
        o["seed"] = draw(st.integers(0, 10**6))
    if draw(st.booleans()):
        a = draw(st.integers(0, 50))
        b = a + draw(st.integers(1, 60))
        o["partition"] = draw(st.sampled_from(
            [[a, b, a + 2 * (b - a)], [0, None, None], [a, b, None],
             [0, b, None], [a, b, b]]))
    if draw(st.booleans()):
        o["device"] = draw(st.sampled_from(["cpu", "cuda", "cuda:1"]))
    c["extra"] = draw(st.lists(st.tuples(
        st.sampled_from(["epoch_num", "num_runs_per_subset", "lr", "name"]),
        st.one_of(st.sampled_from(["0", "5", "12", "0.5", "big", "-3", "1e-3",
                                   "2024-01", "007", "a b", ""]),
                  st.text(alphabet="ab019-+._ /e", max_size=6))), max_size=3,
        unique_by=lambda x: x[0]))
    c["order"] = draw(st.permutations(range(12)))
    c["eq"] = draw(st.booleans())
    c["omit"] = draw(st.sampled_from([None] * 9 + ["dataset", "model", "mode"]))
    return c


def argv(c):
    items = [("dataset", c["data"]), ("model", c["model"]), ("mode", c["mode"])]
    items = [i for i in items if i[0] != c["omit"]]
    for k, v in c["opt"].items():
        if k == "partition":
            v = ",".join("None" if x is None else str(x) for x in v)
        items.append((k, str(v)))
    items += [("extra_param", "%s=%s" % (a, b)) for a, b in c["extra"]]
    items = [x for _, x in sorted(zip(c["order"], items))]
    out = []
    for k, v in items:
        out += ["--%s=%s" % (k, v)] if c["eq"] or v.startswith("-") else [
            "--" + k, v]
    return out


def check(c):
    mod = tool()
    REC["made"], REC["ran"] = [], []
    args = argv(c)
    old = sys.argv
    sys.argv = ["dattri_retrain", *args]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod.main()
    finally:
        sys.argv = old
    if c["omit"]:
        require(not REC["ran"], "retraining ran without --%s" % c["omit"])
        return Result(False, ("refused",))
    o = c["opt"]
    line = " ".join(args)
    require(len(REC["ran"]) == 1, "%s: %d retrainings" % (line, len(REC["ran"])))
    mode, got = REC["ran"][0]
    require(mode == c["mode"], "%s: mode %s" % (line, mode))
    require(got.pop("train_func") is REC["trainers"][c["data"], c["model"]],
            "%s: another training function" % line)
    require(len(REC["made"]) == 1 and REC["made"][0][0] == c["data"]
            and REC["made"][0][1] == o.get("data_path", "."),
            "%s: data sets made: %s" % (line, REC["made"]))
    require(pathlib.Path(o.get("data_path", ".")).is_dir(),
            "%s: the data path does not exist" % line)
    loader = got.pop("dataloader")
    require(isinstance(loader.dataset, Big) and loader.dataset.train
            and loader.dataset.name == c["data"], "%s: another data set" % line)
    n = o.get("train_subset", 5000)
    n = 9000 if n == -1 else n
    require(len(loader.sampler) == n and sorted(loader.sampler) == list(
        range(n)), "%s: the loader has %d samples, expected the first %d" % (
            line, len(loader.sampler), n))
    require(str(got.pop("path")) == o.get("save_path", "."),
            "%s: another path" % line)
    require(got.pop("seed") == o.get("seed", 0), "%s: another seed" % line)
    require(got.pop("device") == o.get("device", "cpu"),
            "%s: another device" % line)
    a, b, t = o.get("partition", [0, None, None])
    for k, v in c["extra"]:
        require(k in got and got.pop(k) == (int(v) if v.isdigit() else v),
                "%s: extra parameter %s is not passed" % (line, k))
    if c["mode"] == "loo":
        idx = list(got.pop("indices"))
        require(idx == list(range(a, n if b is None else b)),
                "%s: leaves out %d samples, from %s" % (line, len(idx), idx[:1]))
    else:
        b, t = 100 if b is None else b, 100 if t is None else t
        trio = (got.pop("num_subsets"), got.pop("start_id"),
                got.pop("total_num_subsets"))
        require(trio == (b - a, a, t), "%s: subsets, start, total are %s, "
                "expected %s" % (line, trio, (b - a, a, t)))
        require(got.pop("subset_ratio") == 0.5, "%s: another ratio" % line)
        if "num_runs_per_subset" in got:
            require(got.pop("num_runs_per_subset") == 1, "%s: runs" % line)
    require(not got, "%s: unexpected arguments %s" % (line, got))
    return Result(len(o) >= 3, (c["mode"], c["data"]))


# --------------------------------------------------------------- nanoGPT
@st.composite
def nano_cases(draw):
    a = draw(st.integers(0, 6))
    b = a + draw(st.integers(0, 4))
    return {"via": draw(st.sampled_from(["main", "main", "call"])),
            "dataset": draw(st.sampled_from([None, "shakespeare_char",
                                             "tinystories"])),
            "seed": draw(st.one_of(st.none(), st.integers(0, 999))),
            "partition": draw(st.one_of(st.none(), st.just([a, b, b]),
                                        st.just([a, b, b + 3]),
                                        st.just([a, b + 3, b]))),
            "ratio": draw(st.sampled_from([None, 0.25, 1.0, 0.5, 0.0, -0.5,
                                           1.5])),
            "save": draw(st.sampled_from([None, "out", "a b", "it's/x", "/abs"])),
            "file": draw(st.sampled_from([None, "t.txt", "my text.txt"])),
            "only": draw(st.integers(0, 5)) == 0, "meta": draw(st.booleans()),
            "bare": draw(st.booleans())}


def tokens(cmd):
    import shlex
    return shlex.split(cmd) if isinstance(cmd, str) else [str(x) for x in cmd]


def nano_check(c):
    import dattri
    from dattri.script import dattri_retrain_nanogpt as mod
    here = pathlib.Path.cwd()
    runs, prepared = [], []

    def run(cmd, *a, **kw):
        t = tokens(cmd)
        where = pathlib.Path(kw.get("cwd") or pathlib.Path.cwd()).resolve()
        if any(pathlib.Path(x).name == "prepare.py" for x in t):
            prepared.append((t, where))
        else:
            text = pathlib.Path(t[-1]).read_text(encoding="utf-8")
            runs.append((t[:-1], where, text))
        return subprocess.CompletedProcess(cmd, 0)

    root = pathlib.Path(dattri.__file__).resolve().parent
    real = subprocess.run
    old = sys.argv
    save = "output_models" if c["save"] is None else c["save"]
    if c["save"] == "/abs":
        save = str(here / "abs")
    name = c["dataset"] or "shakespeare_char"
    part = c["partition"] or [0, 5, 5]
    seed = 42 if c["seed"] is None else c["seed"]
    ratio = 0.5 if c["ratio"] is None else c["ratio"]
    raised = None
    try:
        subprocess.run = run
        if c["via"] == "main":
            out = []
            for k, v in (("dataset", c["dataset"]), ("seed", c["seed"]),
                         ("data_file", c["file"])):
                out += [] if v is None else ["--" + k, str(v)]
            out += [] if c["ratio"] is None else ["--subset_ratio=%s" % c["ratio"]]
            out += [] if c["save"] is None else ["--save_path", save]
            out += ["--partition", *map(str, part)] if c["partition"] else []
            out += ["--only_download_dataset"] if c["only"] else []
            sys.argv = ["nano", *out]
            data_dir = root / "benchmark" / "datasets" / name
            meta = (data_dir / "meta.pkl").exists()
            mod.main()
        else:
            data_dir = here / "my data"
            data_dir.mkdir()
            meta = c["meta"]
            if meta:
                (data_dir / "meta.pkl").write_text("x")
            config = root / ("benchmark/models/nanoGPT/config/train_%s.py" % name)
            text = config.read_text()
            if c["bare"]:
                text += "\ndataset_path = 'another'\n"
            (here / "conf.py").write_text(text)
            mod.retrain(seed, ratio, "conf.py", data_dir, c["file"], save,
                        list(part), c["only"])
    except ValueError as e:
        raised = e
    finally:
        subprocess.run = real
        sys.argv = old
        os.chdir(here)
    require(bool(prepared) != meta and len(prepared) <= 1,
            "the data set is prepared %d times" % len(prepared))
    for t, where in prepared:
        require((where / t[1]).resolve() == (data_dir / "prepare.py").resolve(),
                "prepared with %s" % t)
        if c["file"] is not None:
            require("--data_file" in t and t[t.index("--data_file") + 1]
                    == c["file"] and where == here.resolve(),
                    "the data file %r is passed as %s" % (c["file"], t))
    if c["only"]:
        require(not runs, "trained although only the download is requested")
        return Result(False, ("download",))
    if not 0 < ratio <= 1:
        require(raised is not None and not runs, "ratio %s is accepted" % ratio)
        return Result(False, ("refused",))
    require(raised is None, "raised %s" % raised)
    want = list(range(part[0], min(part[1], part[2])))
    require(len(runs) == len(want), "%d runs for partition %s" % (
        len(runs), part))
    base = {}
    exec(compile((root / ("benchmark/models/nanoGPT/config/train_%s.py" % name))
                 .read_text(), "config", "exec"), base)
    for i, (t, where, text) in zip(want, runs):
        require(t[-1] == "train.py" and where == (
            root / "benchmark" / "models" / "nanoGPT").resolve(),
            "started %s in %s" % (t, where))
        got = {}
        exec(compile(text, "config", "exec"), got)
        require(os.path.normpath(got.pop("out_dir")) == os.path.normpath(
            str(here.resolve() / save / ("model_%d" % (i + 1)))),
            "run %d has another out_dir" % i)
        require(got.pop("seed") == seed + i, "run %d has another seed than %d"
                % (i, seed + i))
        require(got.pop("subset_ratio") == ratio, "run %d: another ratio" % i)
        require(pathlib.Path(got.pop("dataset_path")).resolve()
                == data_dir.resolve(), "run %d: another data path" % i)
        for k, v in base.items():
            if k not in ("out_dir", "seed", "subset_ratio", "dataset_path",
                         "__builtins__"):
                require(got.get(k, None) == v, "run %d changes %s" % (i, k))
    shutil.rmtree(here / "my data", ignore_errors=True)
    return Result(len(want) > 1, (c["via"], name))


SUBS = [
    Sub("retrain", cases(), check, 1200, 10000, shards=4),
    Sub("nanogpt", nano_cases(), nano_check, 800, 6000, shards=4),
]
