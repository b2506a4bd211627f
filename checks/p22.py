"""P22: retraining and ground truth keep subsets, models and outputs aligned."""
import contextlib
import math
import os
import pathlib

from pv.core import Result, Sub, Violation
from pv.gen import DataLoader, Dataset, require, st, torch

PROP = "P22"
RULE = (
    "A case is a dataset of numbered samples, a loader (whole dataset, "
    "shuffled, or a sampler that selects some samples in any order), and a "
    "leave-one-out run (all or chosen positions, in one run or split over "
    "several) or a datamodel run (subsets, ratio, runs per subset, seed, in "
    "one run or as partitions finished in any order). The training function "
    "records the samples, seed and arguments it got and returns a model that "
    "carries a number. Directories, metadata and the ground truth computed "
    "from them are compared with the records. Non-trivial: a selecting "
    "sampler, chosen positions, several runs per subset, several partitions or "
    "more than 64 subsets."
)
ASSUMPTIONS = [
    "The directory is fresh.",
    "Of the partitions of a run, the last one (by subset number) need not "
    "finish last.",
]


class Numbers(Dataset):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return torch.tensor([float(i)]), torch.tensor(float(i % 2))


def make_loader(c):
    from torch.utils.data import SubsetRandomSampler
    from dattri.benchmark.utils import SubsetSampler
    ds = Numbers(c["n"])
    kw = {"batch_size": c["bs"]}
    kind = c["loader"]
    if kind == "shuffle":
        kw["shuffle"] = True
    elif kind == "subset":
        kw["sampler"] = SubsetSampler(c["picked"])
    elif kind == "random":
        kw["sampler"] = SubsetRandomSampler(c["picked"])
    return DataLoader(ds, **kw)


def ids_of(c):
    """The sample at each position of the loader."""
    return list(c["picked"]) if c["loader"] in ("subset", "random") else list(
        range(c["n"]))


class Trainer:
    """Records calls; its k-th model carries the weight 0.5 * k."""

    def __init__(self, first=0):
        self.calls = []
        self.first = first
        self.__name__ = "trainer"

    def __call__(self, loader, seed="missing", **kwargs):
        got = []
        sizes = []
        for x, y in loader:
            require(len(x) == len(y), "inputs and labels differ")
            got += [int(v) for v in x[:, 0]]
            sizes.append(len(x))
        self.calls.append({"ids": got, "sizes": sizes, "seed": seed,
                           "kwargs": kwargs, "draw": float(torch.rand(()))})
        model = torch.nn.Linear(1, 1)
        with torch.no_grad():
            model.weight.fill_(0.5 * (self.first + len(self.calls)))
            model.bias.fill_(-1.0)
        # part of the state that is no parameter
        model.register_buffer("tag", torch.tensor(self.first + len(self.calls)))
        return model


def sizes_for(n, bs):
    return [bs] * (n // bs) + ([n % bs] if n % bs else [])


@st.composite
def base(draw):
    big = draw(st.integers(0, 15)) == 0
    n = draw(st.integers(15, 60) if big else st.integers(2, 14))
    c = {"n": n, "bs": draw(st.integers(1, 40 if big else 5)),
         "loader": draw(st.sampled_from(["plain", "shuffle", "subset", "random"])),
         "test": draw(st.integers(1, 40 if big else 5)),
         "test_bs": draw(st.integers(1, 9 if big else 3)),
         "path": draw(st.sampled_from(["out", "deep/er/out"])),
         "extra": draw(st.sampled_from([{}, {"device": "cpu"}, {"lr": 3}]))}
    k = draw(st.integers(2, n))
    # what happens to the directory before the ground truth is computed
    c["then"] = draw(st.sampled_from(["stays"] * 3 + [
        "moved", "replaced", "cwd"]))
    c["picked"] = draw(st.permutations(range(n)))[:k]
    if draw(st.booleans()):
        c["picked"] = list(range(k))
    return c


@st.composite
def loo_cases(draw):
    c = draw(base())
    m = len(ids_of(c))
    c["indices"] = None
    if draw(st.integers(0, 2)):
        c["indices"] = draw(st.permutations(range(m)))[
            :draw(st.integers(1, m))]
    c["numpy"] = draw(st.booleans())
    c["seed"] = draw(st.one_of(st.none(), st.integers(0, 99)))
    c["cut"] = draw(st.one_of(st.none(), st.integers(1, m)))
    return c


@st.composite
def large_cases(draw, kind):
    """More samples or subsets than any internal block."""
    c = draw(loo_cases() if kind == "loo" else lds_cases())
    n = draw(st.integers(258, 400) if kind == "loo" else st.integers(50, 60))
    c["n"], c["loader"], c["bs"] = n, "plain", draw(st.integers(16, 64))
    if kind == "loo":
        c["indices"] = draw(st.lists(st.integers(0, n - 1), min_size=2,
                                     max_size=5, unique=True))
        c["indices"][0] = n - 1 - c["indices"][1] % 2
        c["indices"] = list(dict.fromkeys(c["indices"]))
    else:
        c.update(parts=1, per=draw(st.integers(65, 140)), order=[0], runs=1,
                 whole=True, ratio=0.5)
    return c


def test_loader(c):
    return DataLoader(Numbers(c["test"]), batch_size=c["test_bs"])


def loo_check(c):
    import numpy as np
    import yaml
    from dattri.metric import calculate_loo_ground_truth
    from dattri.model_util.retrain import retrain_loo
    ids = ids_of(c)
    tr = Trainer()
    runs = [c["indices"]]
    if c["indices"] is not None and c["cut"] is not None:
        runs = [r for r in (c["indices"][:c["cut"]], c["indices"][c["cut"]:])
                if r]
    for r in runs:
        given = r
        if r is not None and c["numpy"]:
            given = list(np.array(r))
        retrain_loo(tr, make_loader(c), c["path"], indices=given,
                    seed=c["seed"], **c["extra"])
    flat = [i for r in runs for i in (range(len(ids)) if r is None else r)]
    require(len(tr.calls) == len(flat), "%d models were trained, expected %d" % (
        len(tr.calls), len(flat)))
    root = pathlib.Path(c["path"])
    require({d.name for d in root.iterdir() if d.is_dir()} == {
        "index_%d" % i for i in flat}, "directories %s for indices %s" % (
            sorted(d.name for d in root.iterdir()), flat))
    for k, (i, call) in enumerate(zip(flat, tr.calls)):
        want = ids[:i] + ids[i + 1:]
        require(sorted(call["ids"]) == sorted(want), "the model without position "
                "%d was trained on %s, expected %s" % (i, call["ids"], want))
        require(call["sizes"] == sizes_for(len(want), c["bs"]),
                "batches of %s samples" % call["sizes"])
        require(call["seed"] == c["seed"], "seed %s, given %s" % (
            call["seed"], c["seed"]))
        require(call["kwargs"] == c["extra"], "arguments %s, given %s" % (
            call["kwargs"], c["extra"]))
        m = torch.load(root / ("index_%d" % i) / "model_weights.pt",
                       weights_only=False)
        require(float(m.weight) == 0.5 * (k + 1), "the model saved for position "
                "%d is not the one trained without it" % i)
        require(int(m.tag) == k + 1, "the model saved for position %d has the "
                "buffers of another one" % i)
    if c["seed"] is not None and len(runs) == 1:
        torch.rand(3)
        tr2 = Trainer()
        retrain_loo(tr2, make_loader(c), "again", indices=runs[0],
                    seed=c["seed"], **c["extra"])
        require(tr2.calls == tr.calls, "the same seed trains on\n%s\nand\n%s"
                % (tr.calls, tr2.calls))
    meta = yaml.safe_load((root / "metadata.yml").read_text())
    last = list(range(len(ids))) if runs[-1] is None else list(runs[-1])
    require(meta["mode"] == "loo" and meta["data_length"] == len(ids)
            and list(meta["indices"]) == last, "metadata %s" % meta)
    require(set(meta["map_index_dir"]) == set(last), "metadata maps %s" % (
        meta["map_index_dir"],))
    for i, d in meta["map_index_dir"].items():
        require(pathlib.Path(d).resolve() == (root / ("index_%d" % i)).resolve()
                or (root / d).resolve() == (root / ("index_%d" % i)).resolve(),
                "index %s is mapped to %s" % (i, d))

    def target(model, loader):
        return torch.cat([model(x)[:, 0].detach() for x, _ in loader])

    with relocated(c, lambda p: retrain_loo(
            Trainer(10), make_loader(c), p, seed=7)) as where:
        gt, removed = calculate_loo_ground_truth(target, where, test_loader(c))
    require([int(v) for v in removed] == sorted(flat),
            "removed indices %s, expected %s" % (removed.tolist(), sorted(flat)))
    want = torch.tensor([[0.5 * (flat.index(int(i)) + 1) * t - 1
                          for t in range(c["test"])] for i in removed])
    require(tuple(gt.shape) == tuple(want.shape) and torch.equal(gt, want),
            "ground truth\n%s\nexpected\n%s" % (gt, want))
    tags = [c["loader"]] + (["split"] if len(runs) > 1 else [])
    return Result(c["indices"] is not None or c["loader"] in (
        "subset", "random"), tags + [c["then"]])


@st.composite
def lds_cases(draw):
    c = draw(base())
    parts = draw(st.integers(1, 3))
    per = draw(st.integers(1, 3))
    if draw(st.integers(0, 7)) == 0:
        # more than ten subsets: numbers and names sort differently
        per = draw(st.integers(4, 12)) + (8 if parts == 1 else 0)
    c["per"], c["parts"] = per, parts
    c["order"] = draw(st.permutations(range(parts)))
    c["whole"] = parts == 1 and draw(st.booleans())
    c["runs"] = draw(st.integers(1, 3))
    c["ratio"] = draw(st.sampled_from([0.1, 0.3, 0.5, 0.5, 0.75, 1.0]))
    m = len(ids_of(c))
    if int(m * c["ratio"]) == 0:
        c["ratio"] = 1.0
    c["seed"] = draw(st.one_of(st.none(), st.integers(0, 99)))
    if parts > 1 and c["seed"] is None:
        c["seed"] = 5
    return c


@contextlib.contextmanager
def relocated(c, rerun):
    """The directory to read, after the retrained models were moved (and maybe
    others trained in their place) or the working directory changed."""
    here = os.getcwd()
    try:
        if c["then"] in ("moved", "replaced"):
            os.makedirs("kept")
            os.rename(c["path"], "kept/run")
            if c["then"] == "replaced":
                rerun(c["path"])
            yield "kept/run"
        elif c["then"] == "cwd":
            os.makedirs("some/where")
            os.chdir("some/where")
            yield os.path.join(here, c["path"])
        else:
            yield c["path"]
    finally:
        os.chdir(here)


def refused(fn, what):
    try:
        fn()
    except ValueError:
        return
    raise Violation(what + " is accepted")


def lds_check(c):
    import yaml
    from dattri.metric import calculate_lds_ground_truth
    from dattri.model_util.retrain import retrain_lds
    ids = ids_of(c)
    tr = Trainer()
    total = c["per"] * c["parts"]
    kw = dict(subset_ratio=c["ratio"], num_runs_per_subset=c["runs"],
              seed=c["seed"], **c["extra"])
    subsets = []
    for p in c["order"]:
        if c["whole"]:
            # start_id is ignored without a total
            retrain_lds(tr, make_loader(c), c["path"], num_subsets=c["per"],
                        start_id=3, **kw)
        else:
            retrain_lds(tr, make_loader(c), c["path"], num_subsets=c["per"],
                        start_id=p * c["per"], total_num_subsets=total, **kw)
        subsets += range(p * c["per"], (p + 1) * c["per"])
    nothing = Trainer()
    for bad, what in ((-c["per"], "a negative total"),
                      (total + 1, "a total that is no multiple")):
        if c["per"] > 1 or bad < 0:
            refused(lambda t=bad: retrain_lds(
                nothing, make_loader(c), "bad", num_subsets=c["per"],
                total_num_subsets=t, **kw), what)
    require(not nothing.calls, "models were trained in spite of bad arguments")
    root = pathlib.Path(c["path"])
    require({d.name for d in root.iterdir() if d.is_dir()} == {
        str(i) for i in range(total)}, "directories %s" % sorted(
            d.name for d in root.iterdir()))
    require(len(tr.calls) == total * c["runs"], "%d models, expected %d" % (
        len(tr.calls), total * c["runs"]))
    size = int(len(ids) * c["ratio"])
    seeds, recorded = {}, {}
    for k, call in enumerate(tr.calls):
        i, j = subsets[k // c["runs"]], k % c["runs"]
        rec = [int(v) for v in (root / str(i) / "indices.txt").read_text()
               .split()]
        recorded[i] = rec
        require(len(rec) == size == len(set(rec)) and all(
            0 <= v < len(ids) for v in rec), "subset %d has indices %s, "
            "expected %d of %d" % (i, rec, size, len(ids)))
        require(sorted(call["ids"]) == sorted(ids[v] for v in rec),
                "run %d of subset %d was trained on %s, recorded indices %s of "
                "the samples %s" % (j, i, call["ids"], rec, ids))
        require(call["sizes"] == sizes_for(size, c["bs"]),
                "batches of %s samples" % call["sizes"])
        require(call["kwargs"] == c["extra"], "arguments %s" % call["kwargs"])
        seeds[i, j] = call["seed"]
        w = torch.load(root / str(i) / ("model_weights_%d.pt" % j),
                       weights_only=True)
        require(float(w["weight"]) == 0.5 * (k + 1), "the weights saved for run "
                "%d of subset %d are those of another run" % (j, i))
        require(set(w) == {"weight", "bias", "tag"} and int(w["tag"]) == k + 1,
                "the state saved for run %d of subset %d is not that of its "
                "model: %s" % (j, i, w))
    require(len(set(seeds.values())) == len(seeds),
            "some runs are trained with the same seed: %s" % seeds)
    meta = yaml.safe_load((root / "metadata.yml").read_text())
    require(meta["mode"] == "lds" and meta["data_length"] == len(ids)
            and meta["num_subsets"] == total
            and meta["num_runs_per_subset"] == c["runs"]
            and meta["subset_ratio"] == c["ratio"]
            and set(meta["subset_dir_map"]) == set(range(total)),
            "metadata %s for %d subsets" % (meta, total))

    def target(path, loader):
        w = torch.load(path, weights_only=True)
        return torch.cat([(x * w["weight"] + w["bias"])[:, 0]
                          for x, _ in loader])

    with relocated(c, lambda p: retrain_lds(
            Trainer(10), make_loader(c), p, num_subsets=total,
            **dict(kw, seed=1234))) as where:
        gt, idx = calculate_lds_ground_truth(target, where, test_loader(c))
    require(idx.tolist() == [recorded[i] for i in range(total)],
            "indices %s, recorded %s" % (idx.tolist(), recorded))
    want = torch.zeros(total, c["test"], dtype=torch.float64)
    for k in range(len(tr.calls)):
        for t in range(c["test"]):
            want[subsets[k // c["runs"]], t] -= (0.5 * (k + 1) * t - 1) / c["runs"]
    require(tuple(gt.shape) == tuple(want.shape) and torch.allclose(
        gt.double(), want, atol=1e-5), "ground truth\n%s\nexpected\n%s" % (
            gt, want))
    # the same seed gives the same records, in one run as in partitions
    if c["seed"] is not None:
        tr2 = Trainer()
        torch.rand(3)
        retrain_lds(tr2, make_loader(c), "again", num_subsets=total, **kw)
        if c["parts"] == 1:
            require(tr2.calls == tr.calls, "the same seed trains on\n%s\n"
                    "and\n%s" % (tr.calls, tr2.calls))
        for i in range(total):
            rec = [int(v) for v in pathlib.Path("again", str(i), "indices.txt")
                   .read_text().split()]
            require(rec == recorded[i], "subset %d is %s in one run and %s in "
                    "partitions or another run" % (i, rec, recorded[i]))
            for j in range(c["runs"]):
                s = tr2.calls[i * c["runs"] + j]["seed"]
                require(s == seeds[i, j], "run %d of subset %d has seed %s in "
                        "one run and %s in partitions" % (j, i, s, seeds[i, j]))
        # independent random subsets agree by chance with this probability
        if math.perm(len(ids), size) ** (total - 1) > 1e9:
            require(len({tuple(v) for v in recorded.values()}) > 1,
                    "all subsets are the same")
        if math.comb(len(ids), size) > 1e9 * total ** 2:
            require(len({tuple(sorted(v)) for v in recorded.values()}) == total,
                    "some subsets are the same")
    tags = [c["loader"]] + (["partitions"] if c["parts"] > 1 else [])
    return Result(c["loader"] in ("subset", "random") or c["runs"] > 1
                  or c["parts"] > 1 or c["per"] > 64, tags + [c["then"]])


SUBS = [
    Sub("loo", loo_cases(), loo_check, 1200, 8000, shards=4),
    Sub("lds", lds_cases(), lds_check, 1200, 8000, shards=4),
    Sub("loo-large", large_cases("loo"), loo_check, 30, 400, shards=1),
    Sub("lds-large", large_cases("lds"), lds_check, 30, 400, shards=1),
]
