"""P07: explicit / CG / LiSSA influence equals g_test H^-1 g_train."""
from pv.core import Result, Sub
from pv.gen import (
    close, loader, make_xy, setup_nontrivial, setup_task, set_dtype,
    side_loader, side_xy, st, torch, ref_grads, ref_model, layer_list,
)
from pv.ifs import (
    full_batches, full_loader, grads, hessians, if_cases, n_params,
)

PROP = "P07"
RULE = (
    "A case is an influence attributor (explicit inverse, conjugate gradients "
    "in both differentiation modes, LiSSA with full inner batches), a random "
    "task with 1-2 checkpoints, separate loss/target, an ordered parameter "
    "selection, train/test loaders and a curvature loader that is cached or "
    "defaults to the training loader. Scores must equal the checkpoint mean of "
    "g_train . (sum over curvature batches of (H_b + reg I)^-1 g_test), LiSSA "
    "its recursion, computed from float64 Hessians. Non-trivial: several "
    "training batches."
)
ASSUMPTIONS = [
    "Curvature batches with an eigenvalue of magnitude below 0.05 (for CG: "
    "any eigenvalue below 0.05) are skipped.",
]


@st.composite
def cases(draw, m):
    c = draw(if_cases([m], big=m in ("explicit", "cg")))
    c["mode"] = draw(st.sampled_from(["rev-rev", "rev-fwd"]))
    c["reg"] = draw(st.sampled_from([0.0, 0.1, 0.5, 1.0, 3.0]))
    c["lissa"] = {"recursion_depth": draw(st.integers(0, 12)),
                  "damping": draw(st.sampled_from([0.0, 0.01, 0.1])),
                  "scaling": draw(st.sampled_from([2.0, 5.0, 50.0])),
                  "num_repeat": draw(st.integers(1, 2)),
                  "batch_size": draw(st.integers(6, 9))}
    c["second"] = draw(st.booleans())
    return c


def transform(c, k, v):
    """Reference transformation of row vectors v."""
    if c["method"] == "lissa":
        q = c["lissa"]
        out = 0
        for H in hessians(c, k, 0.0):
            e = v.clone()
            for _ in range(q["recursion_depth"]):
                e = v + (1 - q["damping"]) * e - e @ H / q["scaling"]
            out = out + e / q["scaling"]
        return out
    out = 0
    for H in hessians(c, k, c["reg"]):
        ev = torch.linalg.eigvalsh(H)
        if float(ev.abs().min()) < 0.05 or (
                c["method"] == "cg" and float(ev.min()) < 0.05):
            return None
        out = out + v @ torch.linalg.inv(H)
    return out


def build(c, task):
    from dattri.algorithm.influence_function import (
        IFAttributorCG, IFAttributorExplicit, IFAttributorLiSSA,
    )
    if c["method"] == "explicit":
        return IFAttributorExplicit(task=task, layer_name=c["layers"],
                                    regularization=c["reg"])
    if c["method"] == "cg":
        return IFAttributorCG(task=task, layer_name=c["layers"],
                              regularization=c["reg"], mode=c["mode"],
                              max_iter=2 * n_params(c) + 6, tol=1e-10)
    return IFAttributorLiSSA(task=task, layer_name=c["layers"],
                             mode=c["mode"], **c["lissa"])


def check(c):
    set_dtype(c)
    if c["method"] == "cg" and c["reg"] < 0.5:
        c = dict(c, reg=c["reg"] + 0.5)
    want = 0
    tvs = []
    for k in range(c["n_ckpt"]):
        tv = transform(c, k, grads(c, k, "te", True))
        if tv is None:
            return Result(False, ["ill-conditioned"])
        tvs.append(tv)
        want = want + grads(c, k, "tr", False) @ tv.T / c["n_ckpt"]
    task, _ = setup_task(c)
    a = build(c, task)
    if c["full"]:
        a.cache(full_loader(c))
    got = a.attribute(side_loader(c, "tr"), side_loader(c, "te"))
    rtol = 1e-5 if c["method"] == "cg" else 1e-7
    # cancellation: the attainable accuracy depends on the factors' size
    scale = max(float(want.abs().max()), 1e-4)
    close(got, want, c["method"] + " scores", rtol=rtol, scale=scale)
    if c["second"]:
        # the curvature stays the one cached (or first used)
        x2, y2 = make_xy(3, c["spec"]["d"], c["spec"]["c"], 909)
        want2 = 0
        for k in range(c["n_ckpt"]):
            g2 = ref_grads(ref_model(c["spec"], k), c["loss"], x2, y2,
                           layer_list(c))
            want2 = want2 + g2 @ tvs[k].T / c["n_ckpt"]
        if c["full"]:
            got2 = a.attribute(loader(x2, y2, 2, c["kind"]),
                               side_loader(c, "te"))
            close(got2, want2, c["method"] + " second training subset",
                  rtol=rtol, scale=max(float(want2.abs().max()), 1e-4))
    return Result(setup_nontrivial(c), [
        "method=" + c["method"], "cached" if c["full"] else "uncached",
        "curv_batches=%d" % min(2, len(full_batches(c)))])


SUBS = [
    Sub("scores-explicit", cases("explicit"), check, quick=320, thorough=7000,
        shards=2),
    Sub("scores-cg", cases("cg"), check, quick=160, thorough=6000, shards=4),
    Sub("scores-lissa", cases("lissa"), check, quick=320, thorough=7000,
        shards=2),
]
