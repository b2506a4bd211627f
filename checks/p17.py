"""P17: KNN-Shapley values are the exact Shapley values of the KNN utility."""
import itertools
import math

from pv.core import Result, Sub, Violation
from pv.gen import (
    SEEDS, FixedSampler, close, require, set_dtype, st, torch,
)

PROP = "P17"
RULE = (
    "A case is 1-6 training and 1-4 test points, labels (given as list, tensor "
    "or taken from the batches), K from 1 to above the number of points, a "
    "distance function (default, L1, a model's features), batch sizes, sampler "
    "and extra batch elements, optionally tied distances. Row j must be the "
    "Shapley value of v(S) = (correct labels among the K nearest in S)/K by "
    "brute force over all subsets (for ties: for some order of the tied "
    "points), and sum to v(all). Search 'large' checks the sum, order "
    "independence and null players on up to 40 points. Non-trivial: several "
    "batches on both sides and at least two labels."
)
ASSUMPTIONS = [
    "Rows are test samples (as the existing test pins down).",
    "The utility of a set smaller than K counts its correct labels over K.",
]


class Data(torch.utils.data.Dataset):
    def __init__(self, x, y, extra):
        self.x, self.y, self.extra = x, y, extra

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        if self.extra:
            return self.x[i], self.x[i].sum(), self.y[i]
        return self.x[i], self.y[i]


def mk(x, y, bs, extra, idx=None):
    kw = {"sampler": FixedSampler(idx)} if idx is not None else {}
    return torch.utils.data.DataLoader(Data(x, y, extra), batch_size=bs, **kw)


DIST = {
    "default": lambda a, b: torch.cdist(a, b, compute_mode="donot_use_mm_for_"
                                        "euclid_dist"),
    "l1": lambda a, b: (a[:, None] - b[None]).abs().sum(-1),
    "feat": lambda a, b: ((torch.tanh(a) * 2)[:, None] -
                          (torch.tanh(b) * 2)[None]).norm(dim=-1),
    # similarities: negative, and the order of the points is what counts
    "dot": lambda a, b: -(a @ b.T),
    "shift": lambda a, b: (a[:, None] - b[None]).norm(dim=-1) - 3.0,
}


def dist_arg(name):
    if name == "default":
        return None
    return lambda u, v: DIST[name](u[0], v[0])


@st.composite
def cases(draw, big=False):
    huge = big and draw(st.integers(0, 15)) == 0
    n = draw(st.integers(41, 260) if huge else
             st.integers(3, 40) if big else st.integers(1, 6))
    c = {"n": n, "m": draw(st.integers(1, 70 if huge else 5 if big else 4)),
         "k": draw(st.integers(1, n + 3)), "d": draw(st.integers(1, 3)),
         "classes": draw(st.integers(1, 3)),
         "dist": draw(st.sampled_from(sorted(DIST))),
         "labels": draw(st.sampled_from(["batch", "list", "tensor"])),
         "bs": draw(st.integers(1, n + 1)), "tbs": draw(st.integers(1, 5)),
         "extra": draw(st.booleans()), "seed": draw(SEEDS),
         "tie": (not big) and draw(st.integers(0, 3)) == 0,
         "f64": draw(st.integers(0, 3)) > 0}
    c["idx"] = list(draw(st.permutations(range(n)))) if draw(
        st.integers(0, 2)) == 0 else None
    return c


def data(c):
    g = torch.Generator().manual_seed(c["seed"])
    x = torch.randn(c["n"], c["d"], generator=g)
    xt = torch.randn(c["m"], c["d"], generator=g)
    if c["tie"]:
        x, xt = x.round() * 0.5, xt.round() * 0.5
    y = torch.randint(0, c["classes"], (c["n"],), generator=g)
    yt = torch.randint(0, c["classes"], (c["m"],), generator=g)
    return x, y, xt, yt


def run(c, x, y, xt, yt, k=None):
    from dattri.algorithm.data_shapley import KNNShapleyAttributor

    att = KNNShapleyAttributor(k_neighbors=k or c["k"],
                               distance_func=dist_arg(c["dist"]))
    ys = y if c["idx"] is None else y[c["idx"]]
    lab = ()
    if c["labels"] == "list":
        lab = (ys.tolist(), yt.tolist())
    elif c["labels"] == "tensor":
        lab = (ys.clone(), yt.clone())
    keep = [list(v) for v in lab]
    out = att.attribute(mk(x, y, c["bs"], c["extra"], c["idx"]),
                        mk(xt, yt, c["tbs"], c["extra"]), *lab)
    for v, w in zip(lab, keep):
        require(list(v) == w, "the given labels were changed")
    return out


def shapley(order, good, K):
    """Brute force; order: training indices by distance."""
    n = len(order)
    v = {}
    for mask in range(1 << n):
        near = [i for i in order if mask >> i & 1][:K]
        v[mask] = sum(good[i] for i in near) / K
    out = [0.0] * n
    for i in range(n):
        for mask in range(1 << n):
            if mask >> i & 1:
                continue
            s = bin(mask).count("1")
            w = math.factorial(s) * math.factorial(n - s - 1) / \
                math.factorial(n)
            out[i] += w * (v[mask | 1 << i] - v[mask])
    return out


def orders(d, tol):
    """All orders of the points by distance, ties in any order."""
    idx = sorted(range(len(d)), key=lambda i: d[i])
    groups = []
    for i in idx:
        if groups and abs(d[i] - d[groups[-1][-1]]) <= tol:
            groups[-1].append(i)
        else:
            groups.append([i])
    for combo in itertools.product(*[list(itertools.permutations(g))
                                     for g in groups]):
        yield [i for g in combo for i in g]


def check(c):
    set_dtype(c)
    x, y, xt, yt = data(c)
    got = run(c, x, y, xt, yt)
    if c["idx"] is not None:
        x, y = x[c["idx"]], y[c["idx"]]
    require(tuple(got.shape) == (c["m"], c["n"]), "shape %s" % (
        tuple(got.shape),))
    D = DIST[c["dist"]](xt, x).tolist()
    tol = 1e-9 if c["f64"] else 1e-5
    for j in range(c["m"]):
        good = [int(v == yt[j]) for v in y]
        best = None
        ords = list(itertools.islice(orders(D[j], tol), 800))
        if len(ords) > 25:
            # many ties: only the efficiency axiom
            continue
        for o in ords:
            w = torch.tensor(shapley(o, good, c["k"]))
            e = float((got[j].double() - w.double()).abs().max())
            best = e if best is None else min(best, e)
        require(best < (1e-9 if c["f64"] else 1e-5),
                "test sample %d: values %s are off the Shapley values by %.3g"
                % (j, got[j].tolist(), best))
    return Result(c["bs"] < c["n"] and c["tbs"] < c["m"] and
                  len(set(y.tolist())) > 1, [
        "dist=" + c["dist"], "labels=" + c["labels"],
        "k>n" if c["k"] > c["n"] else "k<=n", "tie" if c["tie"] else "distinct"])


def check_big(c):
    set_dtype(c)
    x, y, xt, yt = data(c)
    got = run(c, x, y, xt, yt)
    xs, ys = (x, y) if c["idx"] is None else (x[c["idx"]], y[c["idx"]])
    D = DIST[c["dist"]](xt, xs)
    srt = D.sort(dim=1).values
    if float((srt[:, 1:] - srt[:, :-1]).min()) < (
            1e-5 if c["f64"] else 5e-3):
        return Result(False, ["near ties"])
    tol = 1e-9 if c["f64"] else 1e-4
    o = D.argsort(dim=1)
    K = c["k"]
    for j in range(c["m"]):
        good = (ys == yt[j]).double()
        v = float(good[o[j][:K]].sum()) / K
        require(abs(float(got[j].double().sum()) - v) < tol,
                "values of test sample %d sum to %.6f, utility is %.6f" % (
                    j, float(got[j].sum()), v))
        n = c["n"]
        if n <= 10:
            w = torch.tensor(shapley(o[j].tolist(), good.tolist(), K))
            close(got[j], w, "values", rtol=tol, atol=tol)
        if float(good.sum()) in (0, n):
            require(float((got[j] - got[j][0]).abs().max()) < tol,
                    "symmetric points have different values")
    # order of the test samples does not matter
    r = torch.arange(c["m"]).flip(0)
    close(run(c, x, y, xt[r], yt[r])[r], got, "reordered test samples",
          rtol=1e-9 if c["f64"] else 1e-5)
    p = torch.randperm(c["n"], generator=torch.Generator().manual_seed(
        c["seed"]))
    c2 = dict(c, idx=None, bs=max(1, c["bs"] // 2))
    equal_shape = run(c2, xs[p], ys[p], xt, yt)
    back = torch.empty_like(equal_shape)
    back[:, p] = equal_shape
    close(back, got, "reordered training samples",
          rtol=1e-9 if c["f64"] else 1e-5)
    return Result(c["bs"] < c["n"] and len(set(ys.tolist())) > 1,
                  ["dist=" + c["dist"]])


def check_errors(c):
    from dattri.algorithm.data_shapley import KNNShapleyAttributor

    set_dtype(c)
    x, y, xt, yt = data(c)
    att = KNNShapleyAttributor(k_neighbors=c["k"])
    L, T = mk(x, y, c["bs"], False), mk(xt, yt, c["tbs"], False)
    for a, b in ((y.tolist() + [0], yt.tolist()), (y.tolist(), yt.tolist() +
                                                   [0]),
                 (y.tolist()[:-1] or [0, 0], None)):
        try:
            att.attribute(L, T, a, b)
        except ValueError:
            continue
        raise Violation("labels of the wrong length are accepted")
    return Result(True)


SUBS = [
    Sub("exact", cases(), check, quick=1920, thorough=20000, shards=4),
    Sub("large", cases(big=True), check_big, quick=720, thorough=8000,
        shards=3),
    Sub("errors", cases(), check_errors, quick=180, thorough=1000, shards=1),
]
