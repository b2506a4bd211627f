"""P25: label flipping and subset sampling touch exactly what is reported."""
from pv.core import Result, Sub
from pv.gen import DataLoader, TensorDataset, require, st, torch

PROP = "P25"
RULE = (
    "Cases are integer labels (tensor or array, several integer types, any "
    "length), a fraction, and a label space (inferred, or a list, array or "
    "tensor that may lack some labels); or indices (any order, repeated) read "
    "through a loader. Non-trivial: some label is flipped, and the label space "
    "holds at least three labels or lacks one; or the indices are not the "
    "first samples in order."
)
ASSUMPTIONS = [
    "The label space offers another label for every sample.",
    "The inputs of the recorded findings (labels in an array, labels that are "
    "not int64, nothing to flip) are left out of the search and probed; for "
    "labels outside the label space, and for a label space given as a tensor, "
    "the recorded failure alone is tolerated.",
]


@st.composite
def flip_cases(draw):
    space = draw(st.lists(st.integers(0, 9), min_size=2, max_size=6,
                          unique=True))
    n = draw(st.one_of(*[st.integers(1, 12), st.integers(1, 60)] * 5,
                       st.integers(61, 400)))
    given = draw(st.sampled_from(["infer", "list", "array", "tensor"]))
    pool = space if given == "infer" else space + draw(
        st.sampled_from([[], [], [11], [12, 13]]))
    lab = [draw(st.sampled_from(pool)) for _ in range(n)]
    if given == "infer" and len(set(lab)) < 2:
        lab.append([s for s in space if s != lab[0]][0])
    few = [p for p in (0.05, 0.1, 0.25, 0.3, 0.5, 0.9, 1.0)
           if int(p * len(lab)) > 0]
    return {"labels": lab, "space": space, "given": given, "kind": "tensor",
            "dtype": "int64", "p": draw(st.sampled_from(few)),
            "tolerate": True}


def flip_check(c):
    import numpy as np
    from dattri.benchmark.utils import flip_label
    lab = np.array(c["labels"], dtype=c["dtype"])
    if c["kind"] == "tensor":
        lab = torch.from_numpy(lab)
    kept = lab.clone() if c["kind"] == "tensor" else lab.copy()
    kw = {}
    if c["given"] != "infer":
        space = list(c["space"])
        kw["label_space"] = {"list": lambda: space, "array": lambda: np.array(
            space), "tensor": lambda: torch.tensor(space)}[c["given"]]()
    new, where = flip_label(lab, p=c["p"], **kw)
    n = len(c["labels"])
    require(type(new) is type(lab) and new.dtype == lab.dtype
            and len(new) == n, "returned %s of %s" % (type(new), new.dtype))
    require(bool((lab == kept).all()), "the caller's labels were changed")
    where = [int(i) for i in where]
    require(len(set(where)) == len(where) and all(0 <= i < n for i in where),
            "reported positions %s" % where)
    count = c["p"] * n
    require(abs(len(where) - count) < 1, "%d of %d labels flipped, fraction %g"
            % (len(where), n, c["p"]))
    allowed = set(c["labels"]) if c["given"] == "infer" else set(c["space"])
    lacking = set(c["labels"]) - allowed
    to = allowed | lacking if c.get("tolerate") else allowed
    same = bool(c.get("tolerate")) and c["given"] == "tensor"
    for i in range(n):
        a, b = int(kept[i]), int(new[i])
        if i in where:
            require(a != b or same, "position %d is reported and not flipped" % i)
            require(b in to, "position %d is flipped to %d, which is not "
                    "in the label space %s" % (i, b, sorted(allowed)))
        else:
            require(a == b, "position %d is flipped and not reported" % i)
    if c["given"] == "list":
        require(kw["label_space"] == c["space"], "the label space was changed")
    return Result(bool(where) and (len(allowed) > 2 or bool(
        lacking)), (c["kind"], c["given"]))


def probe(**kw):
    """A recorded finding: the plain check on inputs that showed it."""
    def run(_c):
        c = {"labels": [0, 1, 2, 3] * 8, "space": [0, 1, 2, 3], "given": "infer",
             "kind": "tensor", "dtype": "int64", "p": 1.0}
        flip_check(dict(c, **kw))
    return run


def spread(_c):
    """Every position and every other label can be chosen."""
    from dattri.benchmark.utils import flip_label
    seen, to = set(), set()
    for _ in range(400):
        new, where = flip_label(torch.tensor([0, 1, 2, 3, 0, 1]), p=0.5)
        for i in where:
            seen.add(int(i))
            to.add((int(torch.tensor([0, 1, 2, 3, 0, 1])[int(i)]), int(new[i])))
    # missed by chance with probability below 12 * (5/6) ** 400
    require(seen == set(range(6)), "only positions %s are ever flipped" % seen)
    require(len(to) == 12, "only these flips ever occur: %s" % sorted(to))
    return Result(True)


@st.composite
def sampler_cases(draw):
    n = draw(st.one_of(*[st.integers(1, 12)] * 7, st.integers(13, 300)))
    return {"n": n, "idx": draw(st.lists(st.integers(0, n - 1),
                                         max_size=14 if n < 13 else 90)),
            "bs": draw(st.integers(1, 5)), "form": draw(st.sampled_from(
                ["list", "tuple", "range", "array"])),
            "times": draw(st.integers(1, 3))}


def sampler_check(c):
    import numpy as np
    from dattri.benchmark.utils import SubsetSampler
    idx = c["idx"]
    if c["form"] == "range":
        idx = list(range(min(len(idx), c["n"])))
        given = range(len(idx))
    else:
        given = {"list": list, "tuple": tuple, "array": lambda v: np.array(
            v, dtype=int)}[c["form"]](idx)
    s = SubsetSampler(given)
    require(len(s) == len(idx), "length %d of %d indices" % (len(s), len(idx)))
    loader = DataLoader(TensorDataset(torch.arange(c["n"])),
                        batch_size=c["bs"], sampler=s)
    for _ in range(c["times"]):
        require([int(i) for i in s] == idx, "the sampler gives %s for %s" % (
            list(s), idx))
        got = [int(v) for (b,) in loader for v in b]
        require(got == idx, "the loader gives %s for indices %s" % (got, idx))
    return Result(idx != list(range(len(idx))), (c["form"],))


SUBS = [
    Sub("flip", flip_cases(), flip_check, 3000, 30000, shards=3),
    Sub("outside", st.just({}), probe(given="list", space=[0, 1], p=1.0),
        quick=1, probe_for="flip-outside-space"),
    Sub("tensor-space", st.just({}), probe(given="tensor"), quick=1,
        probe_for="flip-tensor-space"),
    Sub("array", st.just({}), probe(kind="array"), quick=1,
        probe_for="flip-array"),
    Sub("none", st.just({}), probe(p=0.0), quick=1, probe_for="flip-none"),
    Sub("dtype", st.just({}), probe(dtype="int32"), quick=1,
        probe_for="flip-dtype"),
    Sub("spread", st.just({}), spread, 1, 1),
    Sub("sampler", sampler_cases(), sampler_check, 1500, 15000, shards=3),
]
