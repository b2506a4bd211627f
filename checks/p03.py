"""P03: TracIn / Grad-Dot / Grad-Cos scores are the documented weighted sums."""
from pv.core import Result, Sub, Violation
from pv.gen import (
    LOSSES, ODD, close, layer_list, loss_scale, proj_params, projection_matrix, set_dtype,
    setup_nontrivial, setup_ref_grads, setup_task, setups, side_loader,
    side_xy, st, torch, trainable, Net, ref_grads, ref_model, make_xy, loader,
)

PROP = "P03"
RULE = (
    "A case is a random network with 1-3 checkpoints, per-checkpoint weights "
    "(positive, negative, zero; list or tensor), separate train loss and test "
    "target, loaders (list/tuple/dict batches, any batch sizes, optional "
    "sampler with repeats), an ordered parameter selection, a projection and "
    "the normalisation switch. The matrix must equal the sum over checkpoints "
    "of weight x inner product of (normalised, projected) per-sample gradients "
    "computed one by one in float64. Non-trivial: more training samples than "
    "the batch size, i.e. several training batches."
)
ASSUMPTIONS = [
    "The projection matrix itself is taken from the library's projection "
    "function applied to the identity matrix; P15 checks that function.",
]


@st.composite
def cases(draw):
    c = draw(setups(kinds=("list", "tuple", "dict"),
                    scales=(1, 1, 1, 1, 1e-6, 1e3), odd=ODD, big=True,
                    losses=(*LOSSES, *LOSSES, "hole")))
    c["weights"] = draw(st.lists(
        st.sampled_from([0.0, 1.0, 0.5, -2.0, 0.1, 3.0]),
        min_size=c["n_ckpt"], max_size=c["n_ckpt"]))
    c["wtensor"] = draw(st.booleans())
    c["norm"] = draw(st.booleans())
    c["proj"] = draw(st.one_of(
        st.none(), proj_params(), proj_params(types=["identity"])))
    c["bad_len"] = draw(st.integers(0, 7)) == 0
    c["second"] = draw(st.booleans())
    return c


def expected(c, side_x, side_y, tst_x, tst_y):
    names = layer_list(c)
    tot = None
    for k in range(c["n_ckpt"]):
        m = ref_model(c["spec"], k)
        g = ref_grads(m, c["loss"], side_x, side_y, names)
        t = ref_grads(m, c["target"] or c["loss"], tst_x, tst_y, names)
        proj = c["proj"] or {"proj_dim": 512, "proj_seed": 0,
                             "proj_type": "normal", "proj_max_batch_size": 32}
        P = projection_matrix(g.shape[1], proj, k)
        g, t = g @ P, t @ P
        if c["norm"]:
            g = g / g.norm(dim=1, keepdim=True).clamp(min=1e-12)
            t = t / t.norm(dim=1, keepdim=True).clamp(min=1e-12)
        s = c["weights"][k] * (g @ t.T)
        tot = s if tot is None else tot + s
    return tot


def check(c):
    from dattri.algorithm.tracin import TracInAttributor
    from dattri.params.projection import TracInProjectionParams

    set_dtype(c)
    task, _ = setup_task(c)
    w = torch.tensor(c["weights"]) if c["wtensor"] else list(c["weights"])
    proj = None if c["proj"] is None else TracInProjectionParams(**c["proj"])
    att = TracInAttributor(task=task, weight_list=w, normalized_grad=c["norm"],
                           proj_params=proj, layer_name=c["layers"])
    got = att.attribute(side_loader(c, "tr"), side_loader(c, "te"))
    want = expected(c, *side_xy(c, "tr"), *side_xy(c, "te"))
    # gradients of well-fitted samples are small, with any loss
    size = loss_scale(c["loss"]), loss_scale(c["target"] or c["loss"])
    atol = None if c["norm"] else \
        (1e-10 if c["f64"] else 2e-6) * min(1, size[0] * size[1])
    # a projected-out gradient has no direction
    rtol = None
    if c["norm"] and not c["f64"]:
        rtol = 5e-3
    if c["norm"]:
        # directions of (numerically) zero gradients are arbitrary
        for k in range(c["n_ckpt"]):
            gk, tk = setup_ref_grads(c, k)
            P = projection_matrix(gk.shape[1], c["proj"] or {
                "proj_dim": 512, "proj_seed": 0, "proj_type": "normal",
                "proj_max_batch_size": 32}, k)
            lo = 1e-6 if c["f64"] else 1e-2
            for a, f in zip((gk @ P, tk @ P), size):
                if float(a.norm(dim=1).min()) < lo * f:
                    return Result(False, ["zero-gradient"])
    close(got, want, "scores", rtol=rtol, atol=atol)
    if c["second"]:
        # swapped roles on the same object: other samples, other sizes
        x2, y2 = make_xy(3, c["spec"]["d"], c["spec"]["c"], 777)
        l2 = loader(x2, y2, 2, c["kind"])
        if not c["norm"]:
            got2 = att.attribute(l2, side_loader(c, "tr"))
            close(got2, expected(c, x2, y2, *side_xy(c, "tr")),
                  "second call on the same attributor")
    if c["bad_len"]:
        bad = TracInAttributor(task=task, weight_list=list(c["weights"]) + [1.0],
                               normalized_grad=c["norm"], proj_params=proj,
                               layer_name=c["layers"])
        try:
            bad.attribute(side_loader(c, "tr"), side_loader(c, "te"))
        except ValueError:
            pass
        else:
            raise Violation("a weight list of the wrong length is accepted")
    return Result(setup_nontrivial(c), [
        "norm" if c["norm"] else "dot", "kind=" + c["kind"],
        "proj=" + (c["proj"] or {}).get("proj_type", "default")])


SUBS = [Sub("scores", cases(), check, quick=3200, thorough=30000, shards=8)]
