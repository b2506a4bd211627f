"""P10: EK-FAC equals the eigenvalue-corrected Kronecker inverse."""
from pv.core import Result, Sub, Violation
from pv.gen import (
    Net, SEEDS, close, ref_grads, ref_model, set_dtype, setup_nontrivial,
    setup_task, setups, side_loader, side_xy, st, torch, build_task, loader,
    make_xy,
)

PROP = "P10"
RULE = (
    "Search 'scores': a random network (1-3 linear layers, with/without bias), "
    "an ordered module selection, separate loss/target, curvature loader of "
    "any batch size, batch limit and damping; scores must equal g_train . "
    "Q_S[(Q_S^T V Q_A)/(Lambda + damping)]Q_A^T per layer, with A, S and the "
    "eigenbasis taken from per-sample float64 quantities and Lambda the mean "
    "squared rotated per-sample gradient. Search 'sequence': the statistics "
    "functions on sequential inputs with a padding mask. Non-trivial: several "
    "curvature batches and at least one layer with bias."
)
ASSUMPTIONS = [
    "cache() is called first; cases whose non-zero curvature eigenvalues are "
    "not clearly separated are skipped (the eigenbasis is then arbitrary).",
]


def module_names(spec):
    return [n for n, l in Net(spec).named_modules()
            if isinstance(l, torch.nn.Linear)]


@st.composite
def cases(draw):
    c = draw(setups(max_ckpt=1, kinds=("list", "tuple"), layers=False,
                    frozen=False, f32=False, max_hidden=2, max_test=3,
                    odd=("post", "aux"), big=True))
    mods = module_names(c["spec"])
    c["modules"] = None
    if draw(st.booleans()):
        c["modules"] = list(draw(st.permutations(mods))
                            [:draw(st.integers(1, len(mods)))])
        if len(c["modules"]) == 1 and draw(st.booleans()):
            c["modules"] = c["modules"][0]
    n = draw(st.sampled_from([*range(2, 10), *range(2, 10), 33]))
    c["full"] = {"n": n, "seed": draw(st.integers(0, 500)),
                 "bs": draw(st.integers(1, n)), "idx": None}
    c["damping"] = draw(st.sampled_from([0.01, 0.1, 1.0]))
    c["limit"] = draw(st.sampled_from([None, None, 1, 2]))
    c["recache"] = draw(st.integers(0, 3)) == 0
    return c


def layer_io(c, x, y):
    """Per-sample inputs and output gradients of each linear layer, float64."""
    m = ref_model(c["spec"], 0)
    mods = {n: l for n, l in m.named_modules()
            if isinstance(l, torch.nn.Linear)}
    store = {}
    hs = [l.register_forward_hook(
        lambda mod, i, o, n=n: (o.retain_grad(),
                                store.__setitem__(n, (i[0], o)))[2:] or None)
          for n, l in mods.items()]
    from pv.gen import loss_value
    res = {n: ([], []) for n in mods}
    for i in range(len(x)):
        store.clear()
        loss_value(c["loss"], m(x[i:i + 1]), y[i:i + 1]).backward()
        for n in mods:
            if n not in store:  # the layer was not used
                a, o = torch.zeros(1, mods[n].in_features), torch.zeros(
                    1, mods[n].out_features)
            else:
                a, o = store[n]
            a = a.detach()[0]
            if mods[n].bias is not None:
                a = torch.cat([a, torch.ones(1)])
            res[n][0].append(a)
            res[n][1].append(torch.zeros_like(o[0]) if o.grad is None
                             else o.grad.detach()[0])
    for h in hs:
        h.remove()
    return {n: (torch.stack(a), torch.stack(s)) for n, (a, s) in res.items()}


def separated(C):
    w = torch.linalg.eigvalsh(C)
    top = float(w[-1])
    if top < 1e-10:
        return True
    r = w / top
    live = r[r > 1e-9]
    if bool(((r > 1e-9) & (r < 1e-5)).any()):
        return False
    return len(live) < 2 or float((live[1:] - live[:-1]).min()) > 1e-3


def transform(A, S, lam_a, lam_s, V, damping):
    """EK-FAC product; V is (n, out, in)."""
    _, qa = torch.linalg.eigh(A)
    _, qs = torch.linalg.eigh(S)
    G = lam_s[:, :, None] * lam_a[:, None, :]
    lam = ((qs.T @ G @ qa) ** 2).mean(0)
    return qs @ ((qs.T @ V @ qa) / (lam + damping)) @ qa.T


def check(c):
    from dattri.algorithm.influence_function import IFAttributorEKFAC

    set_dtype(c)
    x, y = side_xy(c, "full")
    if c["limit"] is not None:
        x, y = x[:c["limit"] * c["full"]["bs"]], y[:c["limit"] * c["full"]["bs"]]
    io = layer_io(c, x, y)
    mods = c["modules"] or module_names(c["spec"])
    mods = [mods] if isinstance(mods, str) else mods
    m = ref_model(c["spec"], 0)
    want, scale = 0, 0
    bias = False
    for n in mods:
        a, s = io[n]
        A, S = a.T @ a / len(a), s.T @ s / len(s)
        if not (separated(A) and separated(S)):
            return Result(False, ["degenerate"])
        lin = m.get_submodule(n)
        names = [n + ".weight"]
        if lin.bias is not None:
            names.append(n + ".bias")
            bias = True
        mats = []
        for side, loss in (("tr", c["loss"]),
                           ("te", c["target"] or c["loss"])):
            g = ref_grads(m, loss, *side_xy(c, side), names=names)
            W = g[:, :lin.weight.numel()].reshape(-1, *lin.weight.shape)
            if lin.bias is not None:
                W = torch.cat([W, g[:, lin.weight.numel():, None]], -1)
            mats.append(W)
        q = transform(A, S, a, s, mats[1], c["damping"])
        part = torch.einsum("noi,moi->nm", mats[0], q)
        want = want + part
        scale = max(scale, float(part.abs().max()),
                    float((mats[0].flatten(1).norm(dim=1).max() *
                           mats[1].flatten(1).norm(dim=1).max())))
    task, model = setup_task(c)
    a = IFAttributorEKFAC(task=task, module_name=c["modules"],
                          damping=c["damping"])
    if c["recache"]:
        x2, y2 = make_xy(4, c["spec"]["d"], c["spec"]["c"], 555)
        a.cache(loader(x2, y2, 2, c["kind"]))
    a.cache(side_loader(c, "full"), **(
        {} if c["limit"] is None else {"max_iter": c["limit"]}))
    got = a.attribute(side_loader(c, "tr"), side_loader(c, "te"))
    close(got, want, "scores", rtol=1e-6, scale=max(scale, 1e-6))
    for n, mod in model.named_modules():
        if mod._forward_hooks:
            raise Violation("a hook is left on %s" % n)
    if c["spec"]["seed"] % 5 == 0:
        t2, _ = build_task(c["spec"], 2, c["loss"])
        try:
            IFAttributorEKFAC(task=t2)
        except ValueError:
            pass
        else:
            raise Violation("several checkpoints are accepted")
    return Result(bias and c["full"]["bs"] < len(x), [
        "modules=%d" % len(mods), "bias" if bias else "nobias"])


# ------------------------------------------------- sequential statistics
@st.composite
def seq_cases(draw):
    nb = draw(st.integers(1, 3))
    t = draw(st.one_of(st.integers(1, 4), st.integers(11, 13)))
    return {"t": t, "d": draw(st.integers(1, 3)), "o": draw(st.integers(1, 3)),
            "sizes": [draw(st.integers(1, 3)) for _ in range(nb)],
            "seed": draw(SEEDS), "masked": draw(st.booleans()),
            "limit": draw(st.sampled_from([None, 1, 2])), "f64": True}


def seq_check(c):
    """A = masked second moment, S = second moment of output gradients per
    valid position, Lambda = mean over sequences of the squared rotated
    gradient."""
    from dattri.func.fisher import (
        estimate_covariance, estimate_eigenvector, estimate_lambda,
    )

    set_dtype(c)
    g = torch.Generator().manual_seed(c["seed"])
    lin = torch.nn.Linear(c["d"], c["o"], bias=False)
    lin.weight.data = torch.randn(c["o"], c["d"], generator=g)
    batches = []
    for b in c["sizes"]:
        x = torch.randn(b, c["t"], c["d"], generator=g)
        u = torch.randn(b, c["t"], c["o"], generator=g)
        if c["masked"]:
            mask = (torch.rand(b, c["t"], generator=g) < 0.6).double()
            mask[:, 0] = 1
        else:
            mask = torch.ones(b, c["t"])
        batches.append((x, u, mask))
    cache = {}

    def hook(_m, i, o):
        o.retain_grad()
        cache["lin"] = (i[0], o)

    h = lin.register_forward_hook(hook)

    def func(batch):
        x, u, mask = batch
        out = lin(x)
        loss = (torch.tanh(out) * u * mask[..., None]).sum() / len(x)
        return loss, mask

    cov = estimate_covariance(func, batches, cache, c["limit"])
    q = estimate_eigenvector(cov)
    lam = estimate_lambda(func, batches, q, cache, c["limit"])
    h.remove()
    used = batches[:c["limit"]]
    A = S = L = 0
    npos = sum(int(m.sum()) for _, _, m in used)
    ns = sum(len(x) for x, _, _ in used)
    qa, qs = q["lin"]
    for x, u, mask in used:
        out = x @ lin.weight.data.T
        ds = (1 - torch.tanh(out) ** 2) * u * mask[..., None]
        xm = x * mask[..., None]
        A = A + xm.flatten(0, 1).T @ xm.flatten(0, 1) / npos
        S = S + ds.flatten(0, 1).T @ ds.flatten(0, 1) / npos
        G = torch.einsum("bto,bti->boi", ds, xm)
        L = L + ((qs.T @ G @ qa) ** 2).sum(0) / ns
    close(cov["lin"][0], A, "input second moment", rtol=1e-8)
    close(cov["lin"][1], S, "output-gradient second moment", rtol=1e-8)
    for Q, C, nm in ((qa, A, "input"), (qs, S, "output")):
        close(Q.T @ Q, torch.eye(len(C)), nm + " basis orthonormal", rtol=1e-7)
        D = Q.T @ C @ Q
        close(D, torch.diag(D.diagonal()), nm + " basis diagonalises",
              rtol=1e-7)
    close(lam["lin"], L, "corrected eigenvalues", rtol=1e-7,
          scale=float(L.abs().max()))
    return Result(len(used) > 1 and c["t"] > 1,
                  ["masked" if c["masked"] else "full",
                   "long" if c["t"] > 10 else "short"])


SUBS = [
    Sub("scores", cases(), check, quick=2560, thorough=24000, shards=6),
    Sub("sequence", seq_cases(), seq_check, quick=1200, thorough=10000,
        shards=2),
]
