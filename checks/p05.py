"""P05: scores do not depend on how the data is batched or ordered."""
import tempfile

from pv.core import Result, Sub
from pv.gen import close, set_dtype, st, torch
from pv.zoo import (
    BLOCK, IF, METHODS, NEEDS_CACHE, NO_CACHE, Handle, ld, rtol, scale_floor,
    zoo_cases,
)

PROP = "P05"
RULE = (
    "A case is one of 16 attribution methods (one user-defined) with a random model, checkpoints, "
    "losses, selections and options, a curvature data set, and a base layout of "
    "training and test samples, followed by 1-3 variants: other batch sizes "
    "and permutations, and where the method's curvature data is fixed also "
    "subsets and repetitions of the samples, and (for methods whose cached "
    "curvature is an average over samples) another batching and order of the "
    "cached data. Every variant's scores must be the base scores with the rows "
    "and columns selected accordingly. Non-trivial: a variant with another "
    "order on a side with several samples and several batches."
)
ASSUMPTIONS = [
    "Explicit, conjugate-gradient and stochastic influence add up inverse "
    "Hessians over the curvature batches, so their curvature loader is fixed.",
    "KNN-Shapley values and uncached TRAK/representer values depend on the "
    "whole training set; their training side is only rebatched and permuted.",
]
PERM_ONLY = {"trak", "trak_cache", "knn"}
RECACHE = {"datainf", "rps", "trak_cache", *BLOCK}


BIG = st.sampled_from([33, 40, 64, 65, 31, 70])


@st.composite
def layout(draw, n, free):
    """Positions and batch size."""
    if n >= 30:
        # a rotation, or with ``free`` part of one
        r = draw(st.integers(0, n - 1))
        idx = [(i * 7 + r) % n if n % 7 else (i + r) % n for i in range(n)]
        if free:
            idx = idx[:draw(st.integers(1, n))]
        return {"idx": idx, "bs": draw(st.integers(12, n + 1))}
    if free:
        idx = draw(st.lists(st.integers(0, n - 1), min_size=1,
                            max_size=n + 2))
        if draw(st.booleans()):
            idx = list(draw(st.permutations(range(n))))
    else:
        idx = list(draw(st.permutations(range(n))))
    return {"idx": idx, "bs": draw(st.integers(1, n + 1))}


@st.composite
def cases(draw, m):
    c = draw(zoo_cases(methods=[m]))
    c["n"], c["mt"] = draw(st.integers(1, 7)), draw(st.integers(1, 6))
    big = m not in ("explicit", "cg", "lissa") and draw(st.integers(0, 5)) == 0
    if big:
        # around and beyond internal batch limits (32, 64)
        c["n"], c["mt"] = draw(BIG), draw(BIG)
    c["nc"] = draw(st.integers(2, 7))
    c["cbs"] = draw(st.integers(1, c["nc"]))
    c["cached"] = m not in NO_CACHE and (
        m in NEEDS_CACHE or m != "rps" or draw(st.booleans()))
    free = m not in PERM_ONLY and not (m == "rps" and not c["cached"])
    c["bs"], c["tbs"] = draw(st.integers(1, 8)), draw(st.integers(1, 7))
    if big:
        c["bs"], c["tbs"] = draw(st.integers(12, 81)), draw(st.integers(12, 81))
    c["vars"] = []
    for _ in range(draw(st.integers(1, 3))):
        v = {"tr": draw(layout(c["n"], free)),
             "te": draw(layout(c["mt"], True)), "re": None}
        if m in RECACHE and c["cached"] and draw(st.booleans()):
            v["re"] = draw(layout(c["nc"], False))
        c["vars"].append(v)
    c["same"] = m in BLOCK and draw(st.booleans())
    if big and c["same"]:
        c["nc"] = draw(st.sampled_from([7, 12, 33, 40]))
        c["cbs"] = draw(st.integers(3, 12))
        for v in c["vars"]:
            v["re"] = v["re"] and draw(layout(c["nc"], False))
    c["reuse"] = draw(st.booleans())
    if m == "rps" and (not c["cached"] or any(v["re"] for v in c["vars"])):
        # later fitting steps hinge on comparisons of rounded losses
        c["epoch"] = 1
    return c


def run(c, h, tr, te, re):
    """Scores of a layout, with rows brought to the order of ``tr``."""
    m = c["methods"][0]
    cur = re or {"idx": range(c["nc"]), "bs": c["cbs"]}
    T = ld(c, "te", c["mt"], te["idx"], te["bs"])
    if m in ("trak_cache", "dvemb"):
        # the cached data is the training data
        if h is None:
            h = Handle(c, m)
            h.cache(ld(c, "tr", c["nc"], cur["idx"], cur["bs"]))
        pos = list(tr["idx"]) if m == "dvemb" else None
        return h, h.scores(None, T, pos)
    if c["same"]:
        # the loader that was cached is the one that is attributed
        if h is None:
            h = Handle(c, m, cache_dir=tempfile.mkdtemp(dir="."))
            h.tr = ld(c, "tr", c["nc"], cur["idx"], cur["bs"])
            h.cache(h.tr)
        return h, h.scores(h.tr, T)
    if h is None:
        h = Handle(c, m)
        if c["cached"]:
            x = dict(c, seed=c["seed"] + 1000)
            h.cache(ld(x, "tr", c["nc"], cur["idx"], cur["bs"]))
    return h, h.scores(ld(c, "tr", c["n"], tr["idx"], tr["bs"]), T)


def check(c):
    set_dtype(c)
    m = c["methods"][0]
    if m in ("trak_cache", "dvemb") or c["same"]:
        c = dict(c, n=c["nc"])
    base = {"tr": {"idx": list(range(c["n"])), "bs": c["bs"]},
            "te": {"idx": list(range(c["mt"])), "bs": c["tbs"]}}
    h0, want = run(c, None, base["tr"], base["te"], None)
    want = want.double().clone()
    if tuple(want.shape) != (c["n"], c["mt"]):
        from pv.core import Violation
        raise Violation("%s: base scores have shape %s for %d x %d samples" % (
            m, tuple(want.shape), c["n"], c["mt"]))
    scale = max(float(want.abs().max()), scale_floor(m))
    if m in BLOCK:
        own = h0.self_scores(None)
        scale = max(scale, float(own.abs().max()))
    nontrivial = False
    tags = ["method=" + m]
    for v in c["vars"]:
        re, tr = v["re"], v["tr"]
        if m == "trak_cache" or c["same"]:
            # its training layout is the layout of the cached data
            tr = {"idx": list(range(c["n"])), "bs": 1} if re is None else re
        if m == "dvemb":
            tr = {"idx": [i % c["n"] for i in tr["idx"]], "bs": 1}
        uncached = not c["cached"] and m == "rps"
        h = h0 if c["reuse"] and re is None and not uncached else None
        h, got = run(c, h, tr, v["te"], re)
        w = want[tr["idx"]][:, v["te"]["idx"]]
        close(got, w, "%s: rows %s columns %s%s" % (
            m, tr["idx"], v["te"]["idx"],
            " recached as %s" % (re,) if re else ""),
            rtol=rtol(c, m), scale=scale)
        for s, n in ((tr, c["n"]), (v["te"], c["mt"])):
            if len(s["idx"]) > 1 and s["idx"] != list(range(n)) and \
                    s["bs"] < len(s["idx"]):
                nontrivial = True
        if re:
            tags.append("recached")
    return Result(nontrivial, tags)


SLOW = {"cg": 0.5, "lissa": 0.5, "explicit": 0.75}
SUBS = [Sub("layouts-" + m, cases(m), check, quick=int(64 * SLOW.get(m, 1)),
            thorough=int(3000 * SLOW.get(m, 1)), shards=1) for m in METHODS]
_ = torch
_ = IF
_ = METHODS
