"""P21: metrics compute the documented statistics."""
import math

from pv.core import Result, Sub
from pv.gen import require, st, torch

PROP = "P21"
RULE = (
    "Cases are score tables of 1-12 training and 1-4 test samples with "
    "integer-valued scores (many or no ties), subsets of the training samples, "
    "and ground truths; or removed samples in any order with their ground "
    "truth (also up to 200 samples, 150 subsets and 40 test samples); or "
    "self-influence scores with the mislabelled positions. The rank "
    "and product-moment correlations, their p-values and the detection curve "
    "are computed by separate plain Python code, and again after relabelling "
    "the training samples and after rescaling the scores. Non-trivial: at "
    "least three subsets (or removed samples) and a correlation that is "
    "neither undefined nor +-1; or a curve that is not a single step."
)
ASSUMPTIONS = [
    "Mislabel detection has at least one clean and one mislabelled sample.",
]


def ranks(x):
    order = sorted(range(len(x)), key=lambda i: x[i])
    r = [0.0] * len(x)
    i = 0
    while i < len(order):
        j = i
        while j + 1 < len(order) and x[order[j + 1]] == x[order[i]]:
            j += 1
        for k in range(i, j + 1):
            r[order[k]] = (i + j) / 2 + 1
        i = j + 1
    return r


def pearson(x, y):
    n = len(x)
    mx, my = math.fsum(x) / n, math.fsum(y) / n
    sxx = math.fsum((a - mx) ** 2 for a in x)
    syy = math.fsum((b - my) ** 2 for b in y)
    if sxx == 0 or syy == 0:
        return math.nan
    return math.fsum((a - mx) * (b - my) for a, b in zip(x, y)) / math.sqrt(
        sxx) / math.sqrt(syy)


def pvalue(r, n):
    """Two-sided, of the t statistic with n - 2 degrees of freedom."""
    from scipy.special import betainc
    if math.isnan(r):
        return math.nan
    if n == 2:
        return 1.0
    r2 = min(1.0, r * r)
    return float(betainc((n - 2) / 2, 0.5, 1 - r2))


def near(a, b, tol, what):
    a = float(a)
    if math.isnan(b):
        require(math.isnan(a), "%s is %g, expected undefined" % (what, a))
        return
    require(abs(a - b) <= tol, "%s is %.7g, expected %.7g" % (what, a, b))


@st.composite
def tables(draw):
    n, t = draw(st.integers(1, 12)), draw(st.integers(1, 4))
    big = draw(st.sampled_from([2, 9, 1000]))
    ints = st.integers(-big, big)
    c = {"n": n, "t": t,
         "score": [[draw(ints) for _ in range(t)] for _ in range(n)],
         "dtype": draw(st.sampled_from(["float32", "float64"])),
         "perm": draw(st.permutations(range(n))),
         "scale": draw(st.sampled_from([0.5, 2.0, 8.0, 2.0 ** -40, 2.0 ** 30])),
         "shift": draw(st.sampled_from([0.0, 4.0, -8.0]))}
    if not 0.1 < c["scale"] < 10:
        c["shift"] = 0.0  # a shift would round the scores
    return c, big


@st.composite
def lds_cases(draw):
    c, big = draw(tables())
    m, k = draw(st.integers(2, 12)), draw(st.integers(1, c["n"]))
    c["subsets"] = [draw(st.permutations(range(c["n"])))[:k] for _ in range(m)]
    c["gt"] = [[draw(st.integers(-big, big)) for _ in range(c["t"])]
               for _ in range(m)]
    return c


def call(fn, *a):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a)


def lds_check(c):
    from dattri.metric import lds
    dt = getattr(torch, c["dtype"])
    score = torch.tensor(c["score"], dtype=dt)
    gt = torch.tensor(c["gt"], dtype=dt)
    idx = torch.tensor(c["subsets"])
    m = len(c["subsets"])
    want = []
    for j in range(c["t"]):
        sums = [sum(c["score"][i][j] for i in s) for s in c["subsets"]]
        r = pearson(ranks(sums), ranks([g[j] for g in c["gt"]]))
        want.append((r, pvalue(r, m)))
    inv = [c["perm"].index(i) for i in range(c["n"])]
    variants = [("scores", score, gt, idx)]
    variants.append(("relabelled samples", score[c["perm"]], gt,
                     torch.tensor([[inv[i] for i in s] for s in c["subsets"]])))
    variants.append(("rescaled scores", score * c["scale"] + c["shift"], gt, idx))
    variants.append(("rescaled ground truth", score,
                     gt * c["scale"] + c["shift"], idx))
    for name, s, g, i in variants:
        keep = (s.clone(), g.clone(), i.clone())
        corr, p = call(lds, s, (g, i))
        require(tuple(corr.shape) == (c["t"],) and tuple(p.shape) == (c["t"],),
                "%s: shapes %s, %s" % (name, tuple(corr.shape), tuple(p.shape)))
        for j, (r, q) in enumerate(want):
            near(corr[j], r, 1e-5, "%s: correlation of test sample %d" % (
                name, j))
            if math.isnan(r) or abs(r) < 1 - 1e-9:
                near(p[j], q, 1e-4, "%s: p-value of test sample %d" % (name, j))
        require(all(torch.equal(a, b) for a, b in zip(keep, (s, g, i))),
                "lds changed its arguments")
    good = [r for r, _ in want if not math.isnan(r) and abs(r) < 0.999]
    return Result(m >= 3 and bool(good), ("ties",) if any(
        len(set(map(tuple, c["gt"]))) < m for _ in (0,)) else ())


@st.composite
def many_cases(draw):
    """Many samples, subsets and test samples, from a seed."""
    n = draw(st.integers(13, 200))
    return {"n": n, "t": draw(st.integers(1, 40)),
            "m": draw(st.integers(13, 150)), "k": draw(st.integers(1, n)),
            "levels": draw(st.sampled_from([3, 50, 10 ** 6])),
            "seed": draw(st.integers(0, 2 ** 31))}


def many_check(c):
    import random
    from dattri.metric import lds, loo_corr
    r = random.Random(c["seed"])
    n, t, m, lv = c["n"], c["t"], c["m"], c["levels"]
    table = lambda k: [[r.randint(-lv, lv) for _ in range(t)]  # noqa: E731
                       for _ in range(k)]
    score, gt = table(n), table(m)
    subsets = [r.sample(range(n), c["k"]) for _ in range(m)]
    s = torch.tensor(score, dtype=torch.float64)
    corr, p = call(lds, s, (torch.tensor(gt, dtype=torch.float64),
                            torch.tensor(subsets)))
    require(tuple(corr.shape) == (t,), "lds: shape %s" % (tuple(corr.shape),))
    for j in range(t):
        want = pearson(ranks([sum(score[i][j] for i in sub)
                              for sub in subsets]), ranks([g[j] for g in gt]))
        near(corr[j], want, 1e-4, "lds of test sample %d" % j)
        near(p[j], pvalue(want, m), 2e-3, "p-value of test sample %d" % j)
    removed = r.sample(range(n), r.randint(3, n))
    g = table(len(removed))
    corr, p = call(loo_corr, s, (torch.tensor(g, dtype=torch.float64),
                                 torch.tensor(removed)))
    for j in range(t):
        want = pearson([score[i][j] for i in removed], [v[j] for v in g])
        near(corr[j], want, 1e-4, "leave-one-out of test sample %d" % j)
        near(p[j], pvalue(want, len(removed)), 2e-3,
             "leave-one-out p-value of test sample %d" % j)
    return Result(t > 1, ["levels=%d" % lv])


@st.composite
def loo_cases(draw):
    c, big = draw(tables())
    n = max(2, c["n"])
    while len(c["score"]) < n:
        c["score"].append([draw(st.integers(-big, big)) for _ in range(c["t"])])
        c["perm"] = [*c["perm"], len(c["perm"])]
    c["n"] = n
    removed = draw(st.permutations(range(n)))
    kind = draw(st.sampled_from(["all", "any order", "some"]))
    if kind == "all":
        removed = list(range(n))
    if kind == "some":
        removed = removed[:draw(st.integers(2, n))]
    c["removed"] = removed
    c["gt"] = [[draw(st.integers(-big, big)) for _ in range(c["t"])]
               for _ in removed]
    c["float_index"] = draw(st.booleans())
    return c


def loo_check(c):
    from dattri.metric import loo_corr
    dt = getattr(torch, c["dtype"])
    score = torch.tensor(c["score"], dtype=dt)
    gt = torch.tensor(c["gt"], dtype=dt)
    # calculate_loo_ground_truth returns the removed indices as floats
    it = torch.float32 if c["float_index"] else torch.int64
    m = len(c["removed"])
    want = []
    for j in range(c["t"]):
        r = pearson([c["score"][i][j] for i in c["removed"]],
                    [g[j] for g in c["gt"]])
        want.append((r, pvalue(r, m)))
    inv = [c["perm"].index(i) for i in range(c["n"])]
    order = list(range(m))[::-1]
    for name, s, g, rem in (
            ("scores", score, gt, c["removed"]),
            ("relabelled samples", score[c["perm"]], gt,
             [inv[i] for i in c["removed"]]),
            ("reordered ground truth", score, gt[order],
             [c["removed"][i] for i in order]),
            ("rescaled scores", score * c["scale"] + c["shift"], gt,
             c["removed"])):
        corr, p = call(loo_corr, s, (g, torch.tensor(rem, dtype=it)))
        require(tuple(corr.shape) == (c["t"],) and tuple(p.shape) == (c["t"],),
                "%s: shapes %s, %s" % (name, tuple(corr.shape), tuple(p.shape)))
        for j, (r, q) in enumerate(want):
            near(corr[j], r, 1e-4, "%s: correlation of test sample %d" % (
                name, j))
            if math.isnan(r) or abs(r) < 1 - 1e-6:
                near(p[j], q, 2e-3, "%s: p-value of test sample %d" % (name, j))
    good = [r for r, _ in want if not math.isnan(r) and abs(r) < 0.999]
    return Result(m >= 3 and bool(good), (
        "identity" if c["removed"] == list(range(c["n"])) else "moved",))


@st.composite
def auc_cases(draw):
    n = draw(st.one_of(*[st.integers(2, 40)] * 7, st.integers(41, 300)))
    bad = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n - 1,
                        unique=True))
    return {"n": n, "bad": sorted(bad), "order": draw(st.permutations(range(n))),
            "ties": draw(st.integers(0, 3)) == 0,
            "low": draw(st.sampled_from([0, 0, n // 2, n + 3])),
            "gt": draw(st.sampled_from(["float", "bool", "int"])),
            "dtype": draw(st.sampled_from(["float32", "float64", "int64"])),
            "perm": draw(st.permutations(range(n)))}


def auc_check(c):
    from dattri.metric import mislabel_detection_auc
    n, bad = c["n"], set(c["bad"])
    value = [float(v) for v in c["order"]]
    if c["ties"]:
        value = [v // 3 for v in value]
    value = [v - c["low"] for v in value]
    score = torch.tensor(value).to(getattr(torch, c["dtype"]))
    gt = torch.zeros(n)
    gt[c["bad"]] = 1
    gt = gt.to({"float": torch.float32, "bool": torch.bool,
                "int": torch.int64}[c["gt"]])
    nb, ng = len(bad), n - len(bad)
    wins = sum(value[i] > value[j] for i in bad for j in range(n)
               if j not in bad)
    even = sum(value[i] == value[j] for i in bad for j in range(n)
               if j not in bad)
    out = []
    for name, s, g in (("scores", score, gt),
                       ("relabelled samples", score[c["perm"]], gt[c["perm"]]),
                       ("rescaled scores", score * 4 + 8, gt)):
        auc, (fpr, tpr, thr) = mislabel_detection_auc(s, g)
        auc = float(auc)
        require(wins / (nb * ng) - 1e-4 <= auc <= (wins + even) / (nb * ng)
                + 1e-4, "%s: area %.6f, expected %.6f to %.6f" % (
                    name, auc, wins / (nb * ng), (wins + even) / (nb * ng)))
        fpr, tpr, thr = [list(map(float, x)) for x in (fpr, tpr, thr)]
        require(len(fpr) == len(tpr) == len(thr) == n + 1,
                "%s: %d, %d, %d points for %d samples" % (
                    name, len(fpr), len(tpr), len(thr), n))
        require(thr[1:] == list(range(1, n + 1)) and thr[0] < 1,
                "%s: thresholds %s" % (name, thr))
        for k in range(n + 1):
            # samples above, and among those tied with, the k-th score
            cut = sorted(value, reverse=True)[k - 1] if k else math.inf
            hi = [i for i in range(n) if value[i] > cut]
            tie = [i for i in range(n) if value[i] == cut]
            left = k - len(hi)
            tb = len([i for i in tie if i in bad])
            lo = len([i for i in hi if i in bad]) + max(
                0, left - (len(tie) - tb))
            up = len([i for i in hi if i in bad]) + min(left, tb)
            got = round(tpr[k] * nb)
            require(abs(tpr[k] * nb - got) < 1e-3 and lo <= got <= up,
                    "%s: true positive rate %.5f at %d" % (name, tpr[k], k))
            require(abs(fpr[k] * ng - (k - got)) < 1e-3,
                    "%s: false positive rate %.5f at %d" % (name, fpr[k], k))
        out.append(auc)
    if not c["ties"]:
        require(max(out) - min(out) < 1e-5, "the area changed: %s" % out)
    return Result(0 < wins < nb * ng, ("ties",) if c["ties"] else ())


SUBS = [
    Sub("lds", lds_cases(), lds_check, 2400, 30000, shards=3),
    Sub("loo", loo_cases(), loo_check, 2400, 30000, shards=3),
    Sub("many", many_cases(), many_check, 60, 2000, shards=2),
    Sub("auc", auc_cases(), auc_check, 2400, 30000, shards=2),
]
