"""P06: TRAK scores equal the TRAK estimator, cached or not."""
from pv.core import Result, Sub, Violation
from pv.gen import (
    LOSSES, ODD, close, layer_list, loader, loss_value, make_xy, proj_params,
    projection_matrix, ref_grads, ref_model, require, set_dtype,
    setup_nontrivial, setup_task, setups, side_loader, side_xy, st, torch,
)

PROP = "P06"
RULE = (
    "A case is a random network with 1-3 checkpoints, random loaders "
    "(list/tuple/dict batches, any batch sizes), ordered parameter selection, "
    "projection, regularisation and number of repeated calls. With and without "
    "prior caching the scores must equal mean_k[phi_k(test) (Phi_k^T Phi_k + "
    "reg I)^-1 Phi_k^T] * mean_k[1 - p_k], from gradients computed one by one "
    "in float64; misuse (no data, or both cached and given) must be refused. "
    "Non-trivial: several training batches and a kernel matrix of rank >= 2."
)
ASSUMPTIONS = [
    "The projection matrix is read off the library's projection function "
    "(checked by P15); kernels with condition number above 1e6 are skipped.",
]
DEFAULT = {"proj_dim": 512, "proj_seed": 0, "proj_type": "normal",
           "proj_max_batch_size": 32}


@st.composite
def cases(draw):
    c = draw(setups(max_train=8, kinds=("list", "tuple", "dict"),
                    odd=ODD, big=True,
                    losses=(*LOSSES, *LOSSES, "hole")))
    c["proj"] = draw(st.one_of(
        st.none(), proj_params(max_dim=5, big=False),
        proj_params(max_dim=3, types=["identity", "normal"], big=False)))
    c["reg"] = draw(st.sampled_from([0.0, 0.01, 0.1, 1.0, 10.0]))
    if c["proj"] is None and c["reg"] == 0:
        c["reg"] = 0.5
    c["mode"] = draw(st.sampled_from(
        ["plain", "cache", "cache", "recache", "plain_twice"]))
    c["pshape"] = draw(st.sampled_from(["scalar", "vec"]))
    return c


def prob_func(c, model):
    d = c["spec"]["d"]

    def m(params, data):
        x, y = (data["x_in"], data["lab"]) if c["kind"] == "dict" else data
        out = torch.func.functional_call(model, params, (x.reshape(-1, d),))
        p = torch.exp(-loss_value("ce", out, y.reshape(-1)))
        return p.reshape(1) if c["pshape"] == "vec" else p
    return m


def reference(c, trx, tr_y, tex, te_y, self_mode=False):
    proj = c["proj"] or DEFAULT
    names = layer_list(c)
    acc, q = 0, 0
    cond = 0.0
    for k in range(c["n_ckpt"]):
        m = ref_model(c["spec"], k)
        full = sum(p.numel() for p in m.parameters() if p.requires_grad)
        g = ref_grads(m, c["loss"], trx, tr_y, names) / full ** 0.5
        P = projection_matrix(g.shape[1], proj, k)
        scale = float((g ** 2).sum()) + c["reg"]
        g = g @ P
        K = g.T @ g + c["reg"] * torch.eye(g.shape[1], dtype=torch.float64)
        sv = torch.linalg.svdvals(K)
        cond = max(cond, max(float(sv[0]), scale) / float(sv[-1])
                   if float(sv[-1]) > 0 else float("inf"))
        if self_mode:
            t = g
        else:
            t = ref_grads(m, c["target"] or c["loss"], tex, te_y,
                          names) / full ** 0.5 @ P
        S = g @ torch.linalg.pinv(K) @ t.T
        acc = acc + (S.diagonal() if self_mode else S)
        with torch.no_grad():
            pr = torch.exp(-torch.stack([
                loss_value("ce", m(trx[i:i + 1]), tr_y[i:i + 1])
                for i in range(len(trx))]))
        q = q + 1 - pr
    n = c["n_ckpt"]
    acc, q = acc / n, q / n
    return (acc * q if self_mode else acc * q[:, None]), cond, \
        int(torch.linalg.matrix_rank(g))


def check(c):
    from dattri.algorithm.trak import TRAKAttributor
    from dattri.params.projection import TRAKProjectionParams

    set_dtype(c)
    trx, tr_y = side_xy(c, "tr")
    tex, te_y = side_xy(c, "te")
    want, cond, rank = reference(c, trx, tr_y, tex, te_y)
    lim = 1e6 if c["f64"] else 20
    if cond > lim:
        return Result(False, ["ill-conditioned"])
    rtol = max(1e-7, 1e-13 * cond) if c["f64"] else 5e-2
    task, model = setup_task(c)
    proj = None if c["proj"] is None else TRAKProjectionParams(**c["proj"])

    def make():
        return TRAKAttributor(
            task=task, correct_probability_func=prob_func(c, model),
            proj_params=proj, layer_name=c["layers"], regularization=c["reg"])

    a = make()
    mode = c["mode"]
    try:
        a.attribute(side_loader(c, "te"))
    except ValueError:
        pass
    else:
        raise Violation("attribution without any training data is not refused")
    if mode.startswith("plain"):
        for _ in range(2 if mode == "plain_twice" else 1):
            got = a.attribute(test_dataloader=side_loader(c, "te"),
                              train_dataloader=side_loader(c, "tr"))
    else:
        if mode == "recache":
            x2, y2 = make_xy(7, c["spec"]["d"], c["spec"]["c"], 991)
            w2, c2, _ = reference(c, x2, y2, tex, te_y)
            if c2 > lim:
                return Result(False, ["ill-conditioned"])
            a.cache(loader(x2, y2, 3, c["kind"]))
            close(a.attribute(side_loader(c, "te")), w2, "first cache",
                  rtol=rtol)
        a.cache(side_loader(c, "tr"))
        try:
            a.attribute(test_dataloader=side_loader(c, "te"),
                        train_dataloader=side_loader(c, "tr"))
        except ValueError:
            pass
        else:
            raise Violation("a second training loader is accepted after cache")
        got = a.attribute(side_loader(c, "te"))
    close(got, want, "scores (%s)" % mode, rtol=rtol)
    return Result(setup_nontrivial(c) and rank >= 2, [
        "mode=" + mode, "proj=" + (c["proj"] or {}).get("proj_type", "default")])


SUBS = [Sub("scores", cases(), check, quick=800, thorough=30000, shards=8)]
