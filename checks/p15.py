"""P15: random projections are fixed linear maps that preserve products."""
import math

from pv.core import Result, Sub, Violation
from pv.gen import SEEDS, close, equal, require, set_dtype, st, torch

PROP = "P15"
RULE = (
    "Search 'history': projection type, dimension (also around the block size "
    "of 100), seed, precision, feature form (matrix, or dict of tensors of any "
    "shape) and a history of calls with different ensemble indices, batch "
    "sizes, forms, freed memory; every answer must be X @ P(ensemble), P read "
    "off a fresh projector. Search 'matrix': entries, independence between "
    "seeds, ensembles and blocks, moments within 7 sigma. Search 'chunks': the "
    "chunked projector against the sum over chunks, and the chunk size rule. "
    "Non-trivial: several ensembles or batches, resp. at least 200 entries."
)
ASSUMPTIONS = ["CPU projections only (no CUDA device in the sandbox)."]
DENSE = ["normal", "rademacher"]


@st.composite
def hist_cases(draw):
    big = draw(st.integers(0, 11)) == 0
    shapes = draw(st.lists(st.lists(st.integers(1, 8 if big else 3),
                                    max_size=3),
                           min_size=1, max_size=12 if big else 4))
    return {"shapes": shapes,
            "type": draw(st.sampled_from(
                ["normal", "rademacher", "random_mask", "identity"])),
            "dim": draw(st.one_of(st.integers(1, 12), st.sampled_from(
                [99, 100, 101, 150, 200, 201]))),
            "seed": draw(st.integers(0, 2000)), "f64": draw(st.booleans()),
            "fbs": draw(st.integers(1, 5)),
            "maker": draw(st.sampled_from(["func", "object"])),
            "ops": draw(st.lists(st.tuples(
                st.sampled_from(["dict", "flat", "flat", "free"]),
                st.integers(0, 4), st.one_of(
                    *[st.integers(1, 6)] * 7, st.integers(7, 300))),
                min_size=1, max_size=8)),
            "data": draw(SEEDS)}


def sizes(c):
    return [math.prod(s) for s in c["shapes"]]


def make(c, fbs=None):
    from dattri.func.projection import (
        ProjectionType, make_random_projector, random_project,
    )
    from dattri.params.projection import RandomProjectionParams

    dt = torch.float64 if c["f64"] else torch.float32
    fbs = fbs or c["fbs"]
    if c["maker"] == "object":
        o = make_random_projector(
            sizes(c), fbs, c["dim"], 32, torch.device("cpu"), c["seed"],
            ProjectionType(c["type"]), dtype=dt)
        return o.project, o.free_memory
    f = random_project(
        torch.zeros(fbs, sum(sizes(c)), dtype=dt), RandomProjectionParams(
            proj_dim=c["dim"], proj_max_batch_size=32, proj_seed=c["seed"],
            proj_type=c["type"], feature_batch_size=fbs, device="cpu"))
    return f, lambda: None


def hist_check(c):
    set_dtype(c)
    g = torch.Generator().manual_seed(c["data"])
    p = sum(sizes(c))
    eye = torch.eye(p)
    P = {}
    for e in {o[1] for o in c["ops"]}:
        # a fresh object, other declared batch size, one call
        P[e] = make(c, fbs=p)[0](eye, ensemble_id=e)
        k = p if c["type"] == "identity" else (
            min(c["dim"], p) if c["type"] == "random_mask" else c["dim"])
        require(tuple(P[e].shape) == (p, k), "projected size %s, expected %s"
                % (tuple(P[e].shape), (p, k)))
        require(P[e].dtype == eye.dtype, "projection changes the precision")
    run, free = make(c)
    for kind, e, n in c["ops"]:
        if kind == "free":
            free()
            continue
        X = torch.randn(n, p, generator=g)
        if kind == "dict":
            parts = torch.split(X, sizes(c), dim=1)
            feat = {"t%d" % i: t.reshape([n, *s]).clone() for i, (t, s) in
                    enumerate(zip(parts, c["shapes"]))}
        else:
            feat = X.clone()
        out = run(feat, ensemble_id=e)
        want = X.double() @ P[e].double()
        close(out, want, "projection (%s, ensemble %d, %d rows)" % (kind, e, n),
              rtol=1e-10 if c["f64"] else 1e-5,
              scale=max(1.0, float(want.abs().max())))
        if kind == "flat":
            equal(feat, X, "the features")
        else:
            for i, t in enumerate(torch.split(X, sizes(c), dim=1)):
                equal(feat["t%d" % i].reshape(n, -1), t, "the features")
    es = [o[1] for o in c["ops"] if o[0] != "free"]
    return Result(len(set(es)) > 1 and p > 1, [
        "type=" + c["type"], "blocks=%d" % -(-c["dim"] // 100)])


@st.composite
def mat_cases(draw):
    return {"type": draw(st.sampled_from(
        ["normal", "rademacher", "random_mask", "identity"])),
            "p": draw(st.sampled_from([3, 10, 57, 130])),
            "dim": draw(st.sampled_from([1, 2, 7, 50, 99, 100, 101, 199, 200,
                                         230])),
            "seed": draw(st.integers(0, 900)),
            "dseed": draw(st.integers(1, 90)),
            "ens": draw(st.integers(0, 20)), "dens": draw(st.integers(1, 9)),
            "jl": draw(SEEDS), "f64": True}


def mat_check(c):
    set_dtype(c)

    def mat(seed, ens, first=None):
        f, _ = make({"shapes": [[c["p"]]], "type": c["type"], "dim": c["dim"],
                     "seed": seed, "f64": True, "fbs": 2, "maker": "func"})
        if first is not None:
            f(torch.eye(c["p"]), ensemble_id=first)
        return f(torch.eye(c["p"]), ensemble_id=ens)

    p, k = c["p"], c["dim"]
    A = mat(c["seed"], c["ens"])
    equal(mat(c["seed"], c["ens"]), A, "same seed and ensemble")
    equal(mat(c["seed"], c["ens"], c["ens"] + c["dens"]), A,
          "returning to an ensemble")
    others = {"other seed": mat(c["seed"] + c["dseed"], c["ens"]),
              "other ensemble": mat(c["seed"], c["ens"] + c["dens"]),
              "shifted by one each": mat(c["seed"] + 1, c["ens"] + 1)}
    if c["type"] == "identity":
        equal(A, torch.eye(p), "identity projection")
        return Result(False, ["type=identity"])
    if c["type"] == "random_mask":
        m = min(k, p)
        require(bool(((A == 0) | (A == 1)).all()) and
                bool((A.sum(0) == 1).all()) and bool((A.sum(1) <= 1).all()),
                "masking is not a selection of distinct coordinates")
        idx = A.argmax(0)
        require(bool((idx[1:] > idx[:-1]).all()),
                "masking reorders the coordinates")
        if 3 < m < p - 3 and m >= 7:
            for w, B in others.items():
                require(not torch.equal(A, B), "same mask for " + w)
        return Result(m < p, ["type=random_mask"])
    n = p * k
    Z = A * math.sqrt(k)
    if c["type"] == "rademacher":
        require(float((Z.abs() - 1).abs().max()) < 1e-12,
                "rademacher entries are not +-1/sqrt(dim)")
    require(abs(float(Z.mean())) < 7 / math.sqrt(n), "entries not centred")
    if c["type"] == "normal":
        require(abs(float((Z ** 2).mean()) - 1) < 7 * math.sqrt(2 / n),
                "entries do not have variance 1/dim")
        if n >= 3000:
            require(abs(float((Z ** 4).mean()) - 3) < 7 * math.sqrt(96 / n),
                    "entries are not normal")
    if n >= 40:
        for w, B in others.items():
            r = float((Z * B * math.sqrt(k)).mean())
            require(abs(r) < 7 / math.sqrt(n), "correlated with " + w)
    # columns (also of different blocks) are pairwise unrelated
    if p >= 57:
        G = (Z.T @ Z) / p
        G.fill_diagonal_(0)
        require(float(G.abs().max()) < 7.5 / math.sqrt(p),
                "two columns of the projection are related")
    G = (Z @ Z.T) / k
    if k >= 50:
        G.fill_diagonal_(0)
        require(float(G.abs().max()) < 7.5 / math.sqrt(k),
                "two rows of the projection are related")
    # inner products are preserved up to the known deviation
    g = torch.Generator().manual_seed(c["jl"])
    x, y = torch.randn(p, generator=g), torch.randn(p, generator=g)
    sd = math.sqrt((float(x @ x) * float(y @ y) + float(x @ y) ** 2) / k)
    if k >= 50:
        require(abs(float((x @ A) @ (y @ A) - x @ y)) < 8 * sd,
                "inner product not preserved")
    return Result(n >= 200, ["type=" + c["type"], "dim=%d" % k])


@st.composite
def chunk_cases(draw):
    n = draw(st.integers(1, 8))
    return {"sizes": draw(st.lists(st.integers(1, 12), min_size=n, max_size=n)),
            "max": draw(st.integers(1, 30)),
            "vec": draw(st.booleans()),
            "fbs": draw(st.integers(1, 5)),
            "ns": draw(st.lists(st.tuples(st.integers(1, 5),
                                          st.integers(0, 2)),
                                min_size=1, max_size=4)),
            "type": draw(st.sampled_from(DENSE)),
            "dim": draw(st.sampled_from([1, 3, 8, 120])),
            "seed": draw(SEEDS), "f64": True}


def chunk_check(c):
    from dattri.func.projection import (
        BasicProjector, ChunkedCudaProjector, ProjectionType,
    )
    from dattri.func.utils import get_parameter_chunk_sizes

    set_dtype(c)
    big = (2 ** 32 - 1) // 2
    bs = big // c["max"]
    mx, chunks = get_parameter_chunk_sizes(list(c["sizes"]), bs)
    chunks = [int(x) for x in chunks]
    require(int(mx) == big // bs, "maximum chunk size")
    mx = int(mx)
    require(sum(chunks) == sum(c["sizes"]), "chunks lose or add features")
    require(all(0 < x <= mx for x in chunks), "a chunk is empty or too large")
    # at most one more than needed: neighbours would not fit together
    if all(s < mx for s in c["sizes"]):
        bounds, acc = set(), 0
        for s in c["sizes"]:
            acc += s
            bounds.add(acc)
        acc = 0
        for x in chunks:
            acc += x
            require(acc in bounds, "a chunk splits a parameter that fits")
    cpu = torch.device("cpu")
    projs = [BasicProjector(x, c["dim"], c["seed"] + 7 * i,
                            ProjectionType(c["type"]), cpu,
                            dtype=torch.float64) for i, x in enumerate(chunks)]
    pr = ChunkedCudaProjector(projs, mx, chunks, c["fbs"], cpu, torch.float64)
    g = torch.Generator().manual_seed(c["seed"])
    p = sum(c["sizes"])
    splittable = all(s <= mx for s in c["sizes"])
    for n, e in c["ns"]:
        X = torch.randn(n, p, generator=g)
        off, want = 0, 0
        for i, x in enumerate(chunks):
            q = BasicProjector(x, c["dim"], c["seed"] + 7 * i,
                               ProjectionType(c["type"]), cpu,
                               dtype=torch.float64)
            want = want + X[:, off:off + x] @ q.project(torch.eye(x), e)
            off += x
        close(pr.project(X, e), want, "chunked projection", rtol=1e-10,
              scale=max(1.0, float(want.abs().max())))
        if splittable and n <= c["fbs"]:
            parts = torch.split(X, c["sizes"], dim=1)
            d = {"t%d" % i: (t[:, 0] if c["vec"] and t.shape[1] == 1 else
                             t).clone() for i, t in enumerate(parts)}
            close(pr.dict_project(d, e), want, "chunked projection of a dict",
                  rtol=1e-10, scale=max(1.0, float(want.abs().max())))
    try:
        pr.project({"a": torch.zeros(1, p)}, 0)
    except TypeError:
        pass
    else:
        raise Violation("a dict is accepted where only tensors are")
    return Result(len(chunks) > 1, ["chunks=%d" % min(len(chunks), 4),
                                    "split" if not splittable else "whole"])


SUBS = [
    Sub("history", hist_cases(), hist_check, quick=8000, thorough=60000,
        shards=4),
    Sub("matrix", mat_cases(), mat_check, quick=2000, thorough=8000, shards=2),
    Sub("chunks", chunk_cases(), chunk_check, quick=4000, thorough=40000,
        shards=2),
]
