"""P11: relative influence divides by the documented normaliser."""
from pv.core import Result, Sub, Violation
from pv.gen import (
    close, loss_scale, setup_nontrivial, setup_task, set_dtype, side_loader, st, torch,
)
from pv.ifs import full_loader, grads, if_cases
from checks.p07 import build, transform

PROP = "P11"
RULE = (
    "A case is an influence attributor (explicit, conjugate gradients, LiSSA), "
    "a random task with 1-2 checkpoints, loaders, an optional "
    "separate curvature loader and a normalisation method. Row i of the scores "
    "must be the plain score of each checkpoint divided by sqrt(g_i H^-1 g_i) "
    "or ||H^-1 g_i||; the sign pattern and the per-row ranking with one "
    "checkpoint must be those of the plain scores; unknown methods must be "
    "refused. Non-trivial: several training batches."
)
ASSUMPTIONS = [
    "Training gradients of norm below 1e-3 times the loss scale are skipped; "
    "so are values g_i H^-1 g_i below 4e-12 (the library keeps the normaliser "
    "away from zero: at least 1e-12 under the square root).",
]


@st.composite
def cases(draw, m):
    c = draw(if_cases([m], big=m in ("explicit", "cg")))
    if c["method"] != "cg" and draw(st.integers(0, 3)) == 0:
        # well-fitted samples (conjugate gradients stop at a fixed residual)
        c["loss"] += "@%g" % draw(st.sampled_from([1e-3, 1e-5]))
    c["mode"] = draw(st.sampled_from(["rev-rev", "rev-fwd"]))
    c["lissa"] = {"recursion_depth": draw(st.integers(0, 8)), "damping": 0.0,
                  "scaling": draw(st.sampled_from([20.0, 50.0])),
                  "num_repeat": 1, "batch_size": 7}
    c["relatif"] = draw(st.sampled_from(["l", "theta"]))
    c["unknown"] = draw(st.integers(0, 5)) == 0
    return c


def check(c):
    set_dtype(c)
    want, plain = 0, 0
    size = loss_scale(c["loss"])
    tsize = loss_scale(c["target"] or c["loss"])
    for k in range(c["n_ckpt"]):
        g = grads(c, k, "tr", False)
        tv, tg = transform(c, k, grads(c, k, "te", True)), transform(c, k, g)
        if tv is None or float(g.norm(dim=1).min()) < 1e-3 * size:
            return Result(False, ["skipped"])
        q = (g * tg).sum(1)
        if c["relatif"] == "l" and float(q.min()) < max(
                1e-6 * size ** 2, 4e-12):
            return Result(False, ["not-positive"])
        den = q.sqrt() if c["relatif"] == "l" else tg.norm(dim=1)
        want = want + g @ tv.T / den[:, None] / c["n_ckpt"]
        plain = plain + g @ tv.T / c["n_ckpt"]
    task, _ = setup_task(c)
    a = build(c, task)
    if c["full"]:
        a.cache(full_loader(c))
    got = a.attribute(side_loader(c, "tr"), side_loader(c, "te"),
                      relatif_method=c["relatif"])
    rtol = 1e-5 if c["method"] == "cg" else 1e-7
    close(got, want, "%s relative scores (%s)" % (c["method"], c["relatif"]),
          rtol=rtol, scale=max(float(want.abs().max()), 1e-3 * tsize),
          atol=rtol * 1e-3 * tsize)
    p = a.attribute(side_loader(c, "tr"), side_loader(c, "te"))
    close(p, plain, "plain scores after relative scores", rtol=rtol,
          scale=max(float(plain.abs().max()), 1e-3 * size * tsize),
          atol=rtol * 1e-3 * size * tsize)
    if c["unknown"]:
        try:
            a.attribute(side_loader(c, "tr"), side_loader(c, "te"),
                        relatif_method="nosuch")
        except ValueError:
            pass
        else:
            raise Violation("an unknown normalisation is accepted")
    return Result(setup_nontrivial(c), [
        "method=" + c["method"], "relatif=" + c["relatif"]])


def probe_ignored(_c):
    """Arnoldi, DataInf and EK-FAC accept the option and ignore it."""
    from dattri.algorithm.influence_function import (
        IFAttributorArnoldi, IFAttributorDataInf, IFAttributorEKFAC,
    )
    torch.set_default_dtype(torch.float64)
    c = {"spec": {"d": 2, "c": 2, "hidden": [], "act": "tanh", "seed": 1,
                  "bias": [True], "buffer": False, "frozen": []},
         "n_ckpt": 1, "loss": "ce", "target": None, "kind": "list",
         "layers": None, "tr": {"n": 4, "seed": 3, "bs": 4, "idx": None},
         "te": {"n": 2, "seed": 4, "bs": 2, "idx": None}}
    ignored = []
    for name, cls, kw in (
            ("Arnoldi", IFAttributorArnoldi, {"regularization": 1.0}),
            ("DataInf", IFAttributorDataInf, {"regularization": 1.0}),
            ("EK-FAC", IFAttributorEKFAC, {"damping": 1.0})):
        task, _ = setup_task(c)
        a = cls(task=task, **kw)
        a.cache(side_loader(c, "tr"))
        s0 = a.attribute(side_loader(c, "tr"), side_loader(c, "te"))
        try:
            s1 = a.attribute(side_loader(c, "tr"), side_loader(c, "te"),
                             relatif_method="theta")
        except (ValueError, NotImplementedError):
            continue
        if torch.equal(s0, s1):
            ignored.append(name)
    if ignored:
        raise Violation("relative normalisation silently ignored by "
                        + ", ".join(ignored))


SUBS = [
    Sub("relative-explicit", cases("explicit"), check, quick=200, thorough=6000,
        shards=1),
    Sub("relative-cg", cases("cg"), check, quick=90, thorough=5000, shards=5),
    Sub("relative-lissa", cases("lissa"), check, quick=200, thorough=6000,
        shards=2),
    Sub("ignored", st.just({}), probe_ignored, quick=1,
        probe_for="relatif-ignored"),
]
