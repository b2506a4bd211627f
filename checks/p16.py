"""P16: representer-point values decompose the refitted last layer."""
from pv.core import Result, Sub
from pv.gen import (
    SEEDS, F, Net, build_task, close, equal, loader, make_xy, ODD, model_specs,
    ref_model, require, set_dtype, st, torch,
)

PROP = "P16"
RULE = (
    "A case is a random network (binary or multi-class, with/without hidden "
    "layers and bias), data with any batch sizes, an attributed subset, L2 "
    "strength, normalisation, with or without cached fitting data. Search "
    "'weights': with a single fitting epoch the layer is the given one, and "
    "every score must equal x_train . x_test * (-dL_i/dphi / (2 lambda n_fit)) "
    "at the test label. Search 'fit': with many epochs the scores of the "
    "fitting set must sum to the output of the exactly refitted layer, within "
    "the bound given by the stopping rule. Non-trivial: several batches and a "
    "proper subset attributed."
)
ASSUMPTIONS = [
    "The loss averages over samples (BCE / cross entropy, as documented).",
    "In 'fit', cases starting closer than 0.02 (mean absolute gradient) to a "
    "stationary point are skipped.",
]


SIZES = st.sampled_from([1, 2, 3, 4, 5, 6] * 5 + [18, 40, 70])


@st.composite
def cases(draw, fit=False):
    c = {"spec": draw(model_specs(max_hidden=1, frozen=False, min_c=1,
                                  max_c=3, odd=ODD)),
         "n": draw(SIZES), "m": draw(SIZES),
         "bs": draw(st.integers(1, 7)), "tbs": draw(st.integers(1, 5)),
         "cache": draw(st.booleans()), "norm": draw(st.booleans()),
         "nc": draw(st.integers(1, 2)),
         "l2": draw(st.sampled_from([0.1, 0.3, 1.0] if fit else
                                    [0.003, 0.05, 1.0, 1.0, 3e5])),
         "seed": draw(SEEDS), "f64": fit or draw(st.booleans())}
    k = draw(st.integers(1, c["n"]))
    c["idx"] = list(draw(st.permutations(range(c["n"])))[:k])
    c["twice"] = draw(st.booleans())
    k = draw(st.integers(1, c["n"]))
    c["idx2"] = list(draw(st.permutations(range(c["n"])))[:k])
    # features of any size; the raw data are the features without hidden layers
    c["size"] = 1.0
    if not fit and not c["spec"]["hidden"]:
        c["size"] = draw(st.sampled_from([1.0, 1.0, 1e-5, 1e-3]))
    return c


def soft_loss(phi, y):
    if phi.shape[1] == 1:
        return F.binary_cross_entropy_with_logits(phi, y)
    return F.cross_entropy(phi, y)


def feats(m, x):
    """Inputs and outputs of the last layer."""
    x = m.features(x.double())
    return x.detach(), m.head(x).detach()


def dloss(phi, out):
    """Per-sample gradient of the loss at pre-activation phi."""
    if phi.shape[1] == 1:
        return torch.sigmoid(phi) - torch.sigmoid(out)
    return torch.softmax(phi, 1) - torch.softmax(out, 1)


def setup(c):
    sp = c["spec"]
    x, y = make_xy(c["n"], sp["d"], max(sp["c"], 2), c["seed"])
    xt, yt = make_xy(c["m"], sp["d"], max(sp["c"], 2), c["seed"] + 1)
    return x * c["size"], y, xt * c["size"], yt, ref_model(sp, 0)


def make(c, epoch):
    from dattri.algorithm.rps import RPSAttributor

    sp = c["spec"]
    from dattri.task import AttributionTask
    _, model = build_task(sp, c["nc"])
    from pv.gen import make_states
    states = make_states(sp, c["nc"])
    task = AttributionTask(loss_func=soft_loss, model=model,
                           checkpoints=states)
    return RPSAttributor(task=task, final_linear_layer_name="head",
                         normalize_preactivate=c["norm"],
                         l2_strength=c["l2"], epoch=epoch), model, states


def check_weights(c):
    set_dtype(c)
    x, y, xt, yt, m = setup(c)
    W = m.head.weight.detach()
    fx, fo = feats(m, x)
    tx, _ = feats(m, xt)
    att, model, states = make(c, 1)
    if c["cache"]:
        att.cache(loader(x, y, c["bs"]))
    for idx in [c["idx"]] + ([c["idx2"]] if c["twice"] else []):
        # without cached fitting data, the layer is fitted to this call's
        nfit = c["n"] if c["cache"] else len(idx)
        a = dloss(fx @ W.T, fo)[idx] / (-2 * c["l2"] * nfit)
        a = a[:, [0] * c["m"]] if W.shape[0] == 1 else a[:, yt]
        fa = fx[idx]
        want = fa @ tx.T * a
        if c["norm"]:
            least = 1e-3 * min(c["size"], 1.0)
            if min(float(t.norm(dim=1).min()) for t in (fa, tx)) < least:
                return Result(False, ["zero feature"])
            want = F.normalize(fa) @ F.normalize(tx).T * a
        got = att.attribute(loader(x, y, c["bs"], idx=idx),
                            loader(xt, yt, c["tbs"]))
        unit = 1.0 if c["norm"] else min(c["size"], 1.0) ** 2
        close(got, want, "scores", scale=max(float(want.abs().max()),
                                             0.01 * unit / c["l2"]))
    for n, t in model.state_dict().items():
        equal(t, states[0][n], "model " + n)
    return Result(c["bs"] < len(c["idx"]) and len(c["idx"]) < c["n"], [
        "classes=%d" % c["spec"]["c"], "cache" if c["cache"] else "direct"])


def refit(fx, fo, W, l2):
    """Newton on the strongly convex refitting objective."""
    yy = torch.sigmoid(fo) if W.shape[0] == 1 else torch.softmax(fo, 1)

    def obj(t):
        T = t.reshape(W.shape)
        return l2 * (T ** 2).sum() + soft_loss(fx @ T.T, yy)
    t = W.reshape(-1).clone()
    for _ in range(60):
        t.requires_grad_(True)
        g = torch.autograd.grad(obj(t), t)[0]
        t = t.detach()
        if float(g.norm()) < 1e-11:
            break
        H = torch.autograd.functional.hessian(obj, t)
        step, s = torch.linalg.solve(H, g), 1.0
        while float(obj(t - s * step)) > float(obj(t)) and s > 1e-6:
            s /= 2
        t = t - s * step
    w = W.reshape(-1).clone().requires_grad_(True)
    g0 = torch.autograd.grad(obj(w), w)[0]
    return t.reshape(W.shape), float(g0.abs().mean())


def check_fit(c):
    set_dtype(c)
    x, y, xt, yt, m = setup(c)
    W = m.head.weight.detach()
    fx, fo = feats(m, x)
    tx, _ = feats(m, xt)
    best, g0 = refit(fx, fo, W, c["l2"])
    if g0 < 0.02:
        return Result(False, ["near-stationary"])
    c = dict(c, norm=False)
    att, model, states = make(c, 400)
    L, T = loader(x, y, c["bs"]), loader(xt, yt, c["tbs"])
    if c["cache"]:
        att.cache(L)
        # the parts of the fitting set together
        parts = [[i] for i in range(c["n"])] if c["twice"] else [
            list(range(c["n"] // 2)), list(range(c["n"] // 2, c["n"]))]
        got = torch.cat([att.attribute(loader(x, y, c["bs"], idx=p), T)
                         for p in parts if p])
    else:
        if c["twice"]:
            # fitted to other samples before
            att.attribute(loader(x, y, c["bs"], idx=c["idx2"]), T)
        got = att.attribute(L, T)
    require(tuple(got.shape) == (c["n"], c["m"]), "shape")
    out = tx @ best.T
    want = out[:, 0] if W.shape[0] == 1 else out.gather(1, yt[:, None])[:, 0]
    # |theta_rep - theta_best| <= |G| / lambda, |G| <= numel * g0 / 200
    tol = tx.norm(dim=1) * (W.numel() ** 0.5) * g0 / 200 / c["l2"] * \
        (W.numel() ** 0.5) + 1e-6
    err = (got.sum(0) - want).abs()
    require(bool((err <= tol).all()),
            "values sum to %s, the refitted layer outputs %s (bound %s)" % (
                got.sum(0).tolist(), want.tolist(), tol.tolist()))
    for n, t in model.state_dict().items():
        equal(t, states[0][n], "model " + n)
    return Result(c["n"] > 1 and float((want.abs() > 3 * tol).sum()) > 0, [
        "classes=%d" % c["spec"]["c"], "cache" if c["cache"] else "direct"])


SUBS = [
    Sub("weights", cases(), check_weights, quick=3200, thorough=30000,
        shards=5),
    Sub("fit", cases(fit=True), check_fit, quick=960, thorough=6000, shards=3),
]
