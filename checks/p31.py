"""P31: benchmark settings, training and losses belong together."""
import io
import pathlib
import warnings
import zipfile
from unittest import mock

from pv.core import Result, Sub
from pv.gen import (
    DataLoader, F, SEEDS, TensorDataset, close, equal, require, st, torch,
)

PROP = "P31"
RULE = (
    "A case is a benchmark (model, data set, metric), a number of full and "
    "half models, contents for every file, and a history of load_benchmark "
    "calls against a stand-in for the download server (some files missing, "
    "some calls asking to download again); or random images and labels in "
    "random batches, given to a training and a loss function of the "
    "benchmark. Non-trivial: two models of a kind and a repeated call; or "
    "several batches of unequal size."
)
ASSUMPTIONS = [
    "The server is a stand-in: requests.get is replaced, data sets are small "
    "tensors.",
]
IMAGE = {"mnist_lr": (1, 28, 28), "mnist_mlp": (1, 28, 28),
         "cifar2_resnet9": (3, 32, 32)}
SIZES = {"mnist_mlp": (5000, 500), "mnist_lr": (5000, 500),
         "cifar2_resnet9": (5000, 500)}


class Reply:
    def __init__(self, content, status=200):
        self.content, self.status_code = content, status

    def iter_content(self, chunk_size=1):
        for i in range(0, len(self.content), chunk_size):
            yield self.content[i:i + chunk_size]


def saved(obj):
    b = io.BytesIO()
    torch.save(obj, b)
    return b.getvalue()


def zipped(models):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for i, m in models:
            z.writestr("%d/model_weights_0.pt" % i, m)
    return b.getvalue()


@st.composite
def load_cases(draw):
    return {"id": draw(st.sampled_from(["mnist_lr", "mnist_mlp",
                                        "cifar2_resnet9"])),
            "full": draw(st.integers(0, 12)), "half": draw(st.integers(0, 12)),
            "order": draw(st.booleans()), "missing": draw(st.sampled_from(
                [None, None, "lds", "loo"])),
            "calls": [[draw(st.sampled_from(["lds", "loo"])),
                       draw(st.booleans())]
                      for _ in range(draw(st.integers(1, 3)))],
            "text": draw(st.booleans()), "seed": draw(SEEDS)}


def check_load(c):
    from dattri.benchmark import load
    ident = c["id"]
    data, model = ident.split("_")
    g = torch.Generator().manual_seed(c["seed"])
    asked, version = [], [0]

    def value(*what):
        return {"what": list(what), "version": version[0]}

    def get(url, **_):
        asked.append(url)
        tail = url.split("resolve/main/")[1].split("?")[0]
        parts = tail.split("/")
        require(parts[0] == ident, "asked for %s" % url)
        for kind in ("full", "half"):
            if parts[1] == "%s_%s.zip" % (ident, kind):
                ms = [(i, saved(value(kind, i))) for i in range(c[kind])]
                return Reply(zipped(ms[::-1] if c["order"] else ms))
        require(len(parts) == 3, "asked for %s" % url)
        if parts[1] == c["missing"]:
            return Reply(b"", 404)
        return Reply(saved(value(parts[1], parts[2])))

    train = TensorDataset(torch.randn(3, 2, generator=g))
    test = TensorDataset(torch.randn(2, 2, generator=g))
    where = []

    def dataset(path):
        where.append(pathlib.Path(path))
        return train, test

    known, done = None, False
    for metric, again in c["calls"]:
        version[0] += 1
        before = len(asked)
        with mock.patch.object(load.requests, "get", get), \
                mock.patch.dict(load.SUPPORTED_DATASETS, {data: dataset}), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            path = str(pathlib.Path("down").absolute()) if c["text"] else "down"
            try:
                out, truth = load.load_benchmark(model, data, metric, path,
                                                 redownload=again)
            except FileNotFoundError:
                # without any models the folders do not exist; a missing
                # metric has no values
                require(metric == c["missing"] or not c["full"]
                        or not c["half"], "file not found")
                return Result(False, ["missing"])
        require(metric != c["missing"], "values of a missing metric")
        fetched = len(asked) > before
        require(fetched == (again or not done), "downloaded: %s" % fetched)
        known = version[0] if fetched else known
        done = True
        for kind in ("full", "half"):
            paths = out["models_" + kind]
            require(len(paths) == c[kind], "%d %s models" % (
                len(paths), kind))
            for i, p in enumerate(paths):
                require(torch.load(p) == {"what": [kind, i], "version": known},
                        "%s model %d is %s" % (kind, i, torch.load(p)))
        for t, name in zip(truth, ("target_values", "indices")):
            require(t == {"what": [metric, "%s_%s.pt" % (name, metric)],
                          "version": known}, "%s: %s" % (name, t))
        require(out["train_dataset"] is train and out["test_dataset"] is test,
                "data sets")
        require(where[-1].parts[-1] == "dataset" and
                where[-1].parts[-2] == "down", "data set path %s" % where[-1])
        for s, n in zip(("train_sampler", "test_sampler"), SIZES[ident]):
            require(list(out[s]) == list(range(n)), s)
        require(out["loss_func"] is out["target_func"], "target function")
        require(not out["model"].training, "the model is in training mode")
        other = out["model"].state_dict()
        require(int(list(other.values())[0].shape[-1]) in (784, 3),
                "model of another benchmark")
        for f, verb in ((out["loss_func"], "loss"),
                        (out["train_func"], "train")):
            require(f.__name__ == "%s_%s" % (verb, {
                "cifar2_resnet9": "cifar_resnet9"}.get(ident, ident)),
                f.__name__)
    return Result(c["full"] > 1 and c["half"] > 1 and len(c["calls"]) > 1,
                  [ident, "again" if any(a for _, a in c["calls"][1:])
                   else "kept"])


@st.composite
def refuse_cases(draw):
    return {"model": draw(st.sampled_from(["lr", "mlp", "resnet9", "nanogpt",
                                           "gpt2", "x"])),
            "data": draw(st.sampled_from(["mnist", "cifar2", "maestro",
                                          "wikitext2", "y"])),
            "status": draw(st.sampled_from([500, 403, 302]))}


def check_refuse(c):
    """Unknown combinations and failing servers are refused."""
    from dattri.benchmark import load
    ident = "%s_%s" % (c["data"], c["model"])
    known = ident in ("mnist_lr", "mnist_mlp", "cifar2_resnet9",
                      "wikitext2_gpt2")
    calls = []

    def get(url, **_):
        calls.append(url)
        return Reply(b"", c["status"])
    with mock.patch.object(load.requests, "get", get):
        try:
            load.load_benchmark(c["model"], c["data"], "lds", "down")
        except ValueError:
            require(bool(calls) == known, "requests: %s" % calls)
            return Result(True, ["known" if known else "unknown"])
    return require(False, "%s with status %d is accepted" % (ident, c["status"]))


# -- training and losses ---------------------------------------------------

@st.composite
def fit_cases(draw, ids=("mnist_lr", "mnist_mlp"), most=9):
    return {"id": draw(st.sampled_from(list(ids))),
            "n": draw(st.integers(1, most)), "bs": draw(st.integers(1, 5)),
            "lbs": draw(st.integers(1, 5)), "epochs": draw(st.integers(0, 3)),
            "tseed": draw(st.integers(0, 5)), "noise": draw(st.integers(0, 9)),
            "seed": draw(SEEDS)}


def parts(ident):
    from dattri.benchmark import load
    name = {"cifar2_resnet9": "num_epochs"}.get(ident, "epoch_num")
    return (load.TRAIN_FUNC_MAP[ident], load.LOSS_MAP[ident],
            load.MODEL_MAP[ident], name)


def check_fit(c):
    train, loss, make, name = parts(c["id"])
    g = torch.Generator().manual_seed(c["seed"])
    x = torch.randn(c["n"], *IMAGE[c["id"]], generator=g)
    y = torch.randint(0, 2 if c["id"] == "cifar2_resnet9" else 10, (c["n"],),
                      generator=g)
    kept = x.clone()
    ds = TensorDataset(x, y)
    if c["id"] == "cifar2_resnet9" and (c["n"] % c["bs"] == 1 or c["bs"] == 1):
        c = dict(c, bs=c["n"] if c["n"] > 1 else 1)
    tr = DataLoader(ds, batch_size=c["bs"])
    torch.manual_seed(c["noise"])
    a = train(tr, seed=c["tseed"], **{name: c["epochs"]})
    torch.rand(c["noise"])
    b = train(tr, seed=c["tseed"], **{name: c["epochs"]})
    for k, v in a.state_dict().items():
        equal(b.state_dict()[k], v, "trained twice: " + k)
    other = train(tr, seed=c["tseed"] + 1, **{name: c["epochs"]})
    require(any(not torch.equal(v, other.state_dict()[k])
                for k, v in a.state_dict().items()), "another seed, same model")
    if c["id"] == "mnist_lr":  # plain gradient descent, nothing random
        torch.manual_seed(c["tseed"])
        W, B = [p.detach().clone() for p in make().parameters()]
        for _ in range(c["epochs"]):
            for bx, by in tr:
                o = bx.reshape(len(bx), -1) @ W.T + B
                d = (torch.softmax(o, 1) - F.one_hot(by, 10)) / len(bx)
                W = W - 0.01 * d.T @ bx.reshape(len(bx), -1)
                B = B - 0.01 * d.sum(0)
        close(a.linear.weight, W, "trained weights", rtol=1e-3)
        close(a.linear.bias, B, "trained bias", rtol=1e-3, scale=0.1)
    torch.save(a.state_dict(), "m.pt")
    got = loss("m.pt", DataLoader(ds, batch_size=c["lbs"]))
    m = make()
    m.load_state_dict(a.state_dict())
    m.eval()
    with torch.no_grad():
        want = torch.stack([F.cross_entropy(m(x[i:i + 1]), y[i:i + 1])
                            for i in range(c["n"])])
    close(got, want, "losses", rtol=1e-3, scale=0.1)
    equal(x, kept, "images")
    return Result(c["n"] > c["bs"] and c["n"] % c["lbs"] > 0, [c["id"]])


def probe_imagenet(_c):
    """The ImageNet loss is the sum of the losses, as documented."""
    from dattri.benchmark.datasets.imagenet import imagenet_resnet18 as im

    class Tiny(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.zeros(1))

        def forward(self, x):
            return torch.zeros(len(x), 4) + self.w * 0
    torch.save(Tiny().state_dict(), "m.pt")
    ds = TensorDataset(torch.zeros(6, 2), torch.zeros(6, dtype=torch.long))
    with mock.patch.object(im, "create_resnet18_model", Tiny):
        got = [im.loss_imagenet_resnet18("m.pt", DataLoader(ds, batch_size=b))
               for b in (1, 2, 6)]
    want = 6 * float(torch.tensor(4.0).log())
    require(all(abs(v - want) < 1e-4 for v in got), "losses %s, not %g" % (
        got, want))
    return Result(True)


SUBS = [
    Sub("load", load_cases(), check_load, 400, 4000, shards=3),
    Sub("refuse", refuse_cases(), check_refuse, 60, 400, shards=1),
    Sub("fit", fit_cases(), check_fit, 300, 3000, shards=3),
    Sub("resnet", fit_cases(ids=("cifar2_resnet9",), most=4), check_fit, 8, 100,
        shards=2),
    Sub("imagenet", st.just({}), probe_imagenet, quick=1,
        probe_for="imagenet-loss"),
]
