"""P04: self-attribution is the diagonal of train-by-train attribution."""
from pv.core import Result, Sub, Violation
from pv.ifs import n_params
from pv.gen import (
    ODD, close, layer_list, proj_params, require, set_dtype, setup_nontrivial,
    setup_task, setups, side_loader, side_xy, st, torch, ref_grads, ref_model,
    projection_matrix, ref_hessian, setup_ref_grads,
)

PROP = "P04"
RULE = (
    "A case is an attribution method (TracIn, TRAK with and without cache, the "
    "explicit / conjugate-gradient / stochastic / low-rank Hessian methods, "
    "with or without relative normalisation), a random task (loss = target), "
    "1-2 checkpoints and a loader with any batch size. The self-attribution "
    "vector must have one entry per training sample and equal both the "
    "diagonal of the method's own train-by-train matrix and an independent "
    "float64 value. Search 'cached': all influence methods with curvature from "
    "other data, against the diagonal; search 'user-defined': a method on the "
    "documented base class with its own transforms. Non-trivial: several training batches."
)
METHODS = ["tracin", "trak", "trak_cache", "explicit", "cg", "datainf"]


@st.composite
def cases(draw, m):
    c = draw(setups(kinds=("list", "tuple", "dict"),
                    separate_target=False, losses=["ce", "sq"],
                    f32=m not in ("cg", "explicit"), odd=ODD,
                    big=m in ("tracin", "trak", "trak_cache", "datainf")))
    c["method"] = m
    c["norm"] = draw(st.booleans())
    c["weights"] = draw(st.lists(
        st.sampled_from([1.0, 0.5, -2.0, 0.1, 3.0]),
        min_size=c["n_ckpt"], max_size=c["n_ckpt"]))
    c["reg"] = draw(st.sampled_from([0.5, 1.0, 3.0]))
    c["proj"] = draw(proj_params(max_dim=5))
    c["relatif"] = draw(st.sampled_from([None, "l", "theta"])) \
        if m in ("explicit", "cg") else None
    c["cached"] = draw(st.booleans())
    return c


def check(c):
    import dattri.algorithm as A  # noqa: F401
    from dattri.algorithm.influence_function import (
        IFAttributorCG, IFAttributorDataInf, IFAttributorExplicit,
    )
    from dattri.algorithm.tracin import TracInAttributor
    from dattri.algorithm.trak import TRAKAttributor
    from dattri.params.projection import (
        TracInProjectionParams, TRAKProjectionParams,
    )

    set_dtype(c)
    task, model = setup_task(c)
    x, y = side_xy(c, "tr")
    n, m = len(x), c["method"]
    tl = lambda: side_loader(c, "tr")  # noqa: E731
    names = layer_list(c)
    rtol = None
    raw = [ref_grads(ref_model(c["spec"], k), c["loss"], x, y, names)
           for k in range(c["n_ckpt"])]
    ref = 0
    if m == "tracin":
        a = TracInAttributor(
            task=task, weight_list=c["weights"], normalized_grad=c["norm"],
            proj_params=TracInProjectionParams(**c["proj"]),
            layer_name=c["layers"])
        for k, g in enumerate(raw):
            g = g @ projection_matrix(g.shape[1], c["proj"], k)
            v = (g ** 2).sum(1)
            if c["norm"]:
                if float(v.min()) < 1e-4:
                    return Result(False, ["zero-gradient"])
                v = torch.ones(n, dtype=torch.float64)
            ref = ref + c["weights"][k] * v
        full = a.attribute(tl(), tl()).diagonal()
        got = a.self_attribute(tl())
    elif m.startswith("trak"):
        from checks.p06 import prob_func, reference

        c["pshape"] = "vec" if c["norm"] else "scalar"
        ref, _, _ = reference(c, x, y, x, y, self_mode=True)

        def make():
            return TRAKAttributor(
                task=task, correct_probability_func=prob_func(c, model),
                proj_params=TRAKProjectionParams(**c["proj"]),
                layer_name=c["layers"], regularization=c["reg"])
        a = make()
        try:
            a.self_attribute()
        except ValueError:
            pass
        else:
            raise Violation("self-attribution without data is not refused")
        if m == "trak_cache":
            a.cache(tl())
            try:
                a.self_attribute(tl())
            except ValueError:
                pass
            else:
                raise Violation("a second loader is accepted after cache")
            full = a.attribute(tl()).diagonal()
            got = a.self_attribute()
        else:
            full = a.attribute(test_dataloader=tl(),
                               train_dataloader=tl()).diagonal()
            got = a.self_attribute(tl())
    else:
        if m == "explicit":
            a = IFAttributorExplicit(task=task, layer_name=c["layers"],
                                     regularization=c["reg"])
        elif m == "cg":
            a = IFAttributorCG(task=task, layer_name=c["layers"],
                               regularization=c["reg"], max_iter=n_params(c) + 4)
            rtol = 1e-4
        else:
            a = IFAttributorDataInf(task=task, layer_name=c["layers"],
                                    regularization=c["reg"])
        if c["cached"] or m == "datainf":  # DataInf always needs cache()
            a.cache(tl())
        if m == "datainf":
            full = a.attribute(tl(), tl()).diagonal()
            got = a.self_attribute(tl())
            ref = None
        else:
            for k, g in enumerate(raw):
                # inverse products are added up over the training batches
                bs = c["tr"]["bs"]
                M = 0
                for i in range(0, n, bs):
                    H = ref_hessian(c["spec"], k, c["loss"], x[i:i + bs],
                                    y[i:i + bs], names)
                    H = H + c["reg"] * torch.eye(len(H), dtype=torch.float64)
                    ev = torch.linalg.eigvalsh(H)
                    if float(ev.abs().min()) < 0.05 or (
                            m == "cg" or c["relatif"] == "l") and \
                            float(ev.min()) < 0.05:
                        return Result(False, ["ill-conditioned"])
                    M = M + torch.linalg.inv(H)
                hg = g @ M
                v = (g * hg).sum(1)
                if c["relatif"]:
                    if float(g.norm(dim=1).min()) < 1e-3:
                        return Result(False, ["zero-gradient"])
                    v = v / (v.sqrt() if c["relatif"] == "l"
                             else hg.norm(dim=1))
                ref = ref + v / c["n_ckpt"]
            full = a.attribute(tl(), tl(),
                               relatif_method=c["relatif"]).diagonal()
            got = a.self_attribute(tl(), relatif_method=c["relatif"])
    require(tuple(got.shape) == (n,), "%s: self-attribution has shape %s for "
            "%d training samples" % (m, tuple(got.shape), n))
    tol = rtol or (1e-7 if c["f64"] else 1e-2)
    close(got, full.double(), "%s: self-attribution vs diagonal" % m, rtol=tol)
    if ref is not None and not (m.startswith("trak") and not c["f64"]):
        close(got, ref, "%s: self-attribution" % m, rtol=tol)
    return Result(setup_nontrivial(c), ["method=" + m] + (
        ["relatif=" + c["relatif"]] if c["relatif"] else []))


@st.composite
def other_cases(draw, m):
    from pv.zoo import zoo_cases

    c = draw(zoo_cases(methods=[m]))
    c["target"] = None
    for side, mx in (("cu", 6), ("tr", 7)):
        n = draw(st.integers(1, mx))
        c[side] = {"n": n, "bs": draw(st.integers(1, n + 1)),
                   "idx": draw(st.lists(st.integers(0, n - 1), min_size=1,
                                        max_size=n + 1))}
    return c


def other_check(c):
    """Curvature from other data, diagonal of the method's own matrix."""
    from pv import zoo

    set_dtype(c)
    m = c["methods"][0]
    tl = lambda: zoo.ld(c, "tr", c["tr"]["n"], c["tr"]["idx"],  # noqa: E731
                        c["tr"]["bs"])
    h = zoo.Handle(c, m)
    h.cache(zoo.ld(dict(c, seed=c["seed"] + 5), "tr", c["cu"]["n"],
                   c["cu"]["idx"], c["cu"]["bs"]))
    got = h.self_scores(tl())
    full = h.scores(tl(), tl())
    n = len(c["tr"]["idx"])
    require(tuple(got.shape) == (n,) and tuple(full.shape) == (n, n),
            "%s: shapes %s and %s for %d samples" % (
                m, tuple(got.shape), tuple(full.shape), n))
    close(got, full.diagonal().double(), m + ": self-attribution vs diagonal",
          rtol=zoo.rtol(c, m), scale=max(float(full.abs().max()),
                                         zoo.scale_floor(m)))
    return Result(c["tr"]["bs"] < n, ["method=" + m])


@st.composite
def own_cases(draw):
    return draw(setups(kinds=("list", "tuple", "dict"), odd=ODD, big=True))


def own_check(c):
    """A user-defined method on the documented base class, with its hooks."""
    from pv.zoo import own_method

    set_dtype(c)
    task, _ = setup_task(c)
    a = own_method()(task=task, layer_name=c["layers"])
    x, y = side_xy(c, "tr")
    names = layer_list(c)
    want, own = 0, 0
    for k in range(c["n_ckpt"]):
        g, t = setup_ref_grads(c, k)
        f = (k + 1) / (2 * k + 1) / c["n_ckpt"]
        want = want + f * g @ t.flip(1).T
        u = ref_grads(ref_model(c["spec"], k), c["target"] or c["loss"], x, y,
                      names)
        own = own + f * (g * u.flip(1)).sum(1)
    tol = {"rtol": 1e-7 if c["f64"] else 1e-2,
           "atol": 1e-10 if c["f64"] else 1e-5}
    tr, te = side_loader(c, "tr"), side_loader(c, "te")
    close(a.attribute(tr, te), want, "user-defined method", **tol)
    close(a.self_attribute(tr), own,
          "user-defined method: self-attribution", **tol)
    close(a.attribute(tr, te), want, "user-defined method, again", **tol)
    return Result(setup_nontrivial(c), ["ckpt=%d" % min(c["n_ckpt"], 4)])


QUICK = {"cg": 48, "explicit": 100}
OTHER = ["dot", "lissa", "arnoldi", "ekfac", "cg", "explicit", "datainf"]
SUBS = [Sub("diagonal-" + m, cases(m), check, quick=QUICK.get(m, 200), thorough=5000,
            shards=1) for m in METHODS] + [
    Sub("cached-" + m, other_cases(m), other_check, quick=min(60, QUICK.get(m, 60)), thorough=1500,
        shards=1) for m in OTHER] + [
    Sub("user-defined", own_cases(), own_check, quick=200, thorough=4000)]
