"""P23: brittleness finds the smallest removal that flips the prediction."""
from pv.core import Result, Sub
from pv.gen import DataLoader, TensorDataset, require, st, torch

PROP = "P23"
RULE = (
    "A case is a numbered training set, a loader (whole dataset, shuffled or a "
    "sampler selecting samples in any order), distinct scores of one test "
    "sample (vector or one-column table), a search space in any order and a "
    "rule that maps every set of training samples to a prediction. The "
    "training function records the samples it got, the evaluation applies the "
    "rule; the result is compared with a direct search. Non-trivial: the "
    "answer is neither the first tested number nor none."
)
ASSUMPTIONS = ["Scores are distinct."]


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 16), st.integers(1, 16),
                       st.integers(20, 70)))
    c = {"n": n, "bs": draw(st.integers(1, 5)),
         "loader": draw(st.sampled_from(["plain", "shuffle", "subset", "random",
                                         "subset"]))}
    m = draw(st.integers(1, n))
    c["picked"] = draw(st.permutations(range(n)))[:m]
    ids = c["picked"] if c["loader"] in ("subset", "random") else list(range(n))
    c["ids"] = list(ids)
    c["order"] = draw(st.permutations(range(len(ids))))
    c["form"] = draw(st.sampled_from(["vector", "vector", "column"]))
    c["space"] = draw(st.one_of(
        st.none(), st.just(list(range(0, len(ids) + 1))),
        st.lists(st.integers(0, len(ids)), min_size=1, max_size=6)))
    c["label"] = draw(st.integers(0, 2))
    # keeps the prediction until so many of the marked samples are gone
    c["marked"] = draw(st.lists(st.sampled_from(c["ids"]), min_size=1,
                                unique=True))
    c["need"] = draw(st.integers(0, len(c["marked"]) + 1))
    c["window"] = draw(st.integers(0, 2))
    return c


def predict(c, ids):
    """The rule: marked samples left decide, not always monotonically."""
    gone = len(c["marked"]) - len(set(c["marked"]) & set(ids))
    wrong = gone >= c["need"] and (c["window"] == 0
                                   or gone < c["need"] + c["window"])
    return (c["label"] + 1) % 3 if wrong else c["label"]


def make_loader(c):
    from torch.utils.data import SubsetRandomSampler
    from dattri.benchmark.utils import SubsetSampler
    ds = TensorDataset(torch.arange(c["n"]).float().unsqueeze(1),
                       torch.zeros(c["n"]))
    kw = {"batch_size": c["bs"]}
    if c["loader"] == "shuffle":
        kw["shuffle"] = True
    elif c["loader"] == "subset":
        kw["sampler"] = SubsetSampler(c["picked"])
    elif c["loader"] == "random":
        kw["sampler"] = SubsetRandomSampler(c["picked"])
    return DataLoader(ds, **kw)


def check(c):
    from dattri.metric import brittleness
    ids = c["ids"]
    score = torch.zeros(len(ids))
    for rank, pos in enumerate(c["order"]):
        score[pos] = (rank - 3) * 0.5
    calls = []

    class Model(torch.nn.Module):
        def __init__(self, got):
            super().__init__()
            self.w = torch.nn.Parameter(torch.zeros(1))
            self.got = got

    def train(loader):
        got, sizes = [], []
        for x, _ in loader:
            got += [int(v) for v in x[:, 0]]
            sizes.append(len(x))
        require(len(sizes) == -(-len(got) // c["bs"]) and all(
            s <= c["bs"] for s in sizes), "batches of %s, batch size %d" % (
                sizes, c["bs"]))
        calls.append(got)
        return Model(got)

    def evaluate(model, loader):
        require(not model.training, "the model is evaluated in training mode")
        rows = [(x, y) for x, y in loader]
        require(len(rows) == 1 and float(rows[0][0]) == 7.0,
                "the evaluation got another test sample")
        return torch.tensor([predict(c, model.got)])

    test = DataLoader(TensorDataset(torch.tensor([[7.0]]),
                                    torch.tensor([c["label"]])), batch_size=1)
    given = score if c["form"] == "vector" else score.unsqueeze(1)
    before = given.clone()
    got = brittleness(make_loader(c), test, given, train, evaluate,
                      **({} if c["space"] is None else
                         {"search_space": list(c["space"])}))
    require(torch.equal(before, given), "the scores were changed")
    space = range(0, 200, 20) if c["space"] is None else sorted(set(c["space"]))
    top = [ids[p] for p in reversed(c["order"])]
    want, sets = None, []
    for k in space:
        left = [i for i in ids if i not in set(top[:k])]
        sets.append(sorted(left))
        if predict(c, left) != c["label"]:
            want = k
            break
    require(got == want, "returned %s, the smallest number that flips the "
            "prediction is %s" % (got, want))
    tried = {tuple(s) for s in sets}
    for ids_got in calls:
        if tuple(sorted(ids_got)) not in tried:
            # larger removals may be tried, but only of top samples
            k = len(ids) - len(ids_got)
            require(sorted(ids_got) == sorted(
                i for i in ids if i not in set(top[:k])),
                "a model was trained on %s, which is not what is left without "
                "the top %d" % (ids_got, k))
    return Result(want is not None and want != list(space)[0],
                  (c["loader"], "none" if want is None else "flip"))


SUBS = [Sub("search", cases(), check, 3000, 30000, shards=4)]
