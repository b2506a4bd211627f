"""P19: block-projected influence equals the dense layer-wise formula."""
import math

from pv.core import Result, Sub, Violation
from pv.gen import (F, SEEDS, FixedSampler, close, loss_value, nn, require,
                    set_dtype, st, torch)

PROP = "P19"
RULE = (
    "A case is a network with linear layers (with and without bias, 2-D or "
    "sequence inputs, an unhooked layer norm), a selection of layers, the two "
    "compression stages (identity, normal, rademacher, random mask), damping, "
    "Hessian type, storage back end, chunk size, batch sizes and samplers, and "
    "a history of earlier caches (same object, or another object in the same "
    "directory). Scores and self-attribution must equal the layer-wise formula "
    "over float64 per-sample gradients; with random compression the stored "
    "features must be one linear map of the true layer gradients, for training "
    "and test samples alike, that keeps inner products on average over seeds. "
    "Non-trivial: at least two training batches."
)
ASSUMPTIONS = [
    "Losses are means over the batch, as the method needs.",
    "Hessian inverses are taken in float32; the tolerance follows the condition "
    "number of the damped matrix.",
]
EPS = 1.2e-7


class BNet(nn.Module):
    ref = False

    def __init__(self, c):
        super().__init__()
        dims = [c["d"], *c["hidden"], c["o"]]
        self.norm = nn.LayerNorm(c["d"]) if c["norm"] else None
        self.body = nn.ModuleList(
            nn.Linear(dims[i], dims[i + 1], bias=c["bias"][i])
            for i in range(len(dims) - 1))
        # "in": layer outputs are changed in place; "twice": the first layer
        # is used twice; "idle" / "side": a layer without gradients
        self.odd = c.get("odd")
        if self.odd in ("idle", "side"):
            self.extra = nn.Linear(c["d"], 2)

    def forward(self, x):
        if self.norm is not None:
            x = self.norm(x)
        if self.odd == "side":
            self.extra(x)
        for i, layer in enumerate(self.body):
            if self.odd == "strided":  # same values, not contiguous
                x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
            x = layer(x)
            if self.odd == "twice" and i == 0:
                x = layer(torch.tanh(x))
            if self.odd == "in":
                x = x * 1.5 if self.ref else x.mul_(1.5)
            if i + 1 < len(self.body):
                x = torch.tanh(x)
        return x.mean(1) if x.dim() == 3 else x


class Data(torch.utils.data.Dataset):
    def __init__(self, x, y, kind):
        self.x, self.y, self.kind = x, y, kind

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        if self.kind == "dict":
            return {"x": self.x[i], "y": self.y[i]}
        return self.x[i], self.y[i]


class DictNet(BNet):
    """Takes the batch as keyword arguments, like the documented language
    model example, and returns an object with the loss."""

    def forward(self, x, y):
        class Out:
            pass

        o = Out()
        o.logits = super().forward(x)
        return o


@st.composite
def nets(draw, max_hidden=2, odd=("in", "twice", "strided")):
    nh = draw(st.integers(0, max_hidden))
    n = {"d": draw(st.integers(1, 4)), "o": draw(st.integers(2, 3)),
            "hidden": [draw(st.integers(1, 4)) for _ in range(nh)],
            "bias": [draw(st.booleans()) for _ in range(nh + 1)],
            "norm": draw(st.integers(0, 3)) == 0,
            "seed": draw(SEEDS), "seq": draw(st.sampled_from([0, 0, 1, 3])),
         "odd": draw(st.sampled_from([None] * 6 + list(odd)))}
    if n["odd"] == "twice":
        (n["hidden"] or [0])[0] = n["d"]
        if not nh:
            n["odd"] = None
    return n


@st.composite
def sides(draw, mx, mn=1):
    n = draw(st.integers(mn, mx))
    s = {"n": n, "seed": draw(st.integers(0, 999)),
         "bs": draw(st.integers(1, max(4, mx // 3))), "idx": None}
    if draw(st.integers(0, 3)) == 0:
        s["idx"] = draw(st.lists(st.integers(0, n - 1), min_size=1,
                                 max_size=mx))
    return s


TYPES = ["normal", "rademacher", "random_mask"]


@st.composite
def cases(draw, kind):
    odd = ("in", "twice", "strided") + ("idle", "side") * (kind == "exact")
    c = {"net": draw(nets(odd=odd)), "loss": draw(st.sampled_from(["ce", "sq", "logit"])),
         "target": draw(st.sampled_from([None, None, "ce", "sq", "logit"])),
         "kind": draw(st.sampled_from(["list", "list", "dict"])),
         "f64": draw(st.integers(0, 3)) == 0,
         "hessian": draw(st.sampled_from(["eFIM", "eFIM", "Identity"])),
         "damping": draw(st.sampled_from([None, 0.02, 0.1, 1.0, 10.0])),
         "offload": draw(st.sampled_from(
             ["none", "none", "cpu", "cpu", "disk"])),
         "chunk": draw(st.sampled_from([1, 2, 3, 4, 16])),
         "te": draw(sides(5)), "via": draw(st.sampled_from(
             ["cache", "cache", "direct"]))}
    nl = len(c["net"]["hidden"]) + 1
    perm = draw(st.permutations(range(nl)))
    k = draw(st.integers(1, nl))
    c["layers"] = ["body.%d" % i for i in perm[:k]]
    if draw(st.integers(0, 2)) == 0:
        c["layers"] = None
    elif k == 1 and draw(st.booleans()):
        c["layers"] = c["layers"][0]
    if isinstance(c["layers"], list) and kind == "exact":
        # layers that are not linear, or get no gradient, contribute nothing
        for n, there in (("norm", c["net"]["norm"]),
                         ("extra", c["net"]["odd"] in ("idle", "side"))):
            if there and draw(st.booleans()):
                c["layers"].insert(draw(st.integers(0, len(c["layers"]))), n)
    c["same_dir"] = draw(st.booleans())
    c["prior"] = []
    if kind == "exact":
        if draw(st.integers(0, 9)) == 0:
            c["te"] = draw(sides(70, mn=30))
        c["sp"] = c["pr"] = None
        c["tr"] = draw(sides(10))
        if draw(st.integers(0, 7)) == 0:
            # many batches
            c["tr"] = draw(sides(28, mn=20))
            c["tr"]["bs"] = draw(st.integers(1, 2))
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            c["prior"].append({"obj": draw(st.sampled_from(["same", "other"])),
                               "tr": draw(sides(10)),
                               "attr": draw(st.booleans())})
        # part of the cached samples, or other samples, as training data
        c["sub"] = draw(sides(6)) if draw(st.integers(0, 2)) == 0 else None
        c["reopen"] = c["offload"] == "disk" and draw(st.booleans())
        if c["offload"] != "disk" and draw(st.integers(0, 5)) == 0:
            c["redamp"] = draw(st.sampled_from([0.02, 0.1, 1.0, 10.0]))
    else:
        def stage(key, ident):
            t = draw(st.sampled_from(TYPES + (["identity"] if ident else [])))
            return {"proj_dim": -1 if t == "identity"
                    else draw(st.integers(1, 6)),
                    "proj_max_batch_size": 8, "proj_type": t,
                    "proj_seed": draw(st.integers(0, 40))}
        c["method"] = draw(st.sampled_from(["general", "general", "logra",
                                            "factgrass"]))
        if c["method"] == "general":
            c["sp"] = stage("sp", True)
            c["pr"] = stage("pr", True)
        else:
            c["sp"] = {"proj_dim_per_layer": draw(st.sampled_from([1, 4, 9, 16])),
                       "proj_seed": draw(st.integers(0, 40)),
                       "proj_max_batch_size": 8}
            c["blow"] = draw(st.sampled_from([1, 4, 9]))
            c["pr"] = None
        c["tr"] = draw(sides(30, mn=26))
        c["tr"]["idx"] = None
        c["sub"] = None
        c["reopen"] = False
    return c


def make_model(c, double=False):
    net = c["net"]
    m = (DictNet if c["kind"] == "dict" and not double else BNet)(net)
    g = torch.Generator().manual_seed(net["seed"])
    sd = {k: torch.randn(v.shape, generator=g, dtype=torch.float64) /
          math.sqrt(v.shape[-1]) for k, v in m.state_dict().items()}
    m.ref = double
    m.to(torch.float64 if double else torch.get_default_dtype())
    m.load_state_dict(sd)
    m.eval()
    return m


def samples(c, s):
    g = torch.Generator().manual_seed(s["seed"] * 5 + 1)
    net = c["net"]
    shape = (s["n"], net["seq"], net["d"]) if net["seq"] else (s["n"], net["d"])
    x = torch.randn(shape, generator=g, dtype=torch.float64)
    y = torch.randint(0, net["o"], (s["n"],), generator=g)
    return x, y


def loader(c, s):
    x, y = samples(c, s)
    kw = {"sampler": FixedSampler(s["idx"])} if s["idx"] is not None else {}
    return torch.utils.data.DataLoader(
        Data(x.to(torch.get_default_dtype()), y, c["kind"]),
        batch_size=s["bs"], **kw)


def delivered(c, s):
    x, y = samples(c, s)
    return (x, y) if s["idx"] is None else (x[s["idx"]], y[s["idx"]])


def layer_names(c):
    if c["layers"] is None:
        return ["body.%d" % i for i in range(len(c["net"]["hidden"]) + 1)]
    return [c["layers"]] if isinstance(c["layers"], str) else [
        n for n in c["layers"] if n.startswith("body")]


def layer_grads(c, loss, x, y):
    """Per layer, the (n, out*(in+bias)) gradients of weight and bias."""
    m = make_model(c, double=True)
    mods = dict(m.named_modules())
    out = {n: [] for n in layer_names(c)}
    for i in range(len(x)):
        val = loss_value(loss, m(x[i:i + 1]), y[i:i + 1])
        for n in out:
            w, b = mods[n].weight, mods[n].bias
            gs = torch.autograd.grad(val, [w] + ([b] if b is not None else []),
                                     retain_graph=True)
            g = gs[0] if b is None else torch.cat([gs[0], gs[1][:, None]], 1)
            out[n].append(g.reshape(-1))
    return {n: torch.stack(v) for n, v in out.items()}


def make_fn(name, kind):
    def f(model, batch, device):
        if kind == "dict":
            return loss_value(name, model(batch["x"], batch["y"]).logits,
                              batch["y"])
        x, y = batch
        return loss_value(name, model(x.to(device)), y.to(device))

    return f


def make_att(c, cache_dir, damping="case", hessian=None, seed_shift=0):
    from dattri.algorithm import FactGraSSAttributor, LoGraAttributor
    from dattri.algorithm.block_projected_if.block_projected_if import (
        BlockProjectedIFAttributor)
    from dattri.params.projection import (FactGrassProjectionParams,
                                          GeneralProjectionParams,
                                          LoGraProjectionParams)
    from dattri.task import AttributionTask

    m = make_model(c)
    task = AttributionTask(
        loss_func=make_fn(c["loss"], c["kind"]), model=m,
        checkpoints=m.state_dict(),
        target_func=None if c["target"] is None
        else make_fn(c["target"], c["kind"]))
    kw = {"layer_names": c["layers"], "hessian": hessian or c["hessian"],
          "damping": c["damping"] if damping == "case" else damping,
          "offload": c["offload"], "chunk_size": c["chunk"],
          "cache_dir": cache_dir}
    if c["sp"] is None:
        ident = {"proj_dim": -1, "proj_type": "identity"}
        kw["sparsifier_params"] = GeneralProjectionParams(**ident)
        if c["chunk"] % 2:
            kw["projector_params"] = GeneralProjectionParams(**ident)
        cls = BlockProjectedIFAttributor
    else:
        sp = {**c["sp"], "proj_seed": c["sp"]["proj_seed"] + seed_shift}
        if c["method"] == "logra":
            cls, kw["proj_params"] = LoGraAttributor, LoGraProjectionParams(**sp)
        elif c["method"] == "factgrass":
            cls = FactGraSSAttributor
            kw["proj_params"] = FactGrassProjectionParams(**sp)
            sq = math.isqrt(sp["proj_dim_per_layer"] * c["blow"])
            kw["blowup_factor"] = c["blow"]
        else:
            pr = {**c["pr"], "proj_seed": c["pr"]["proj_seed"] + seed_shift}
            cls = BlockProjectedIFAttributor
            kw["sparsifier_params"] = GeneralProjectionParams(**sp)
            kw["projector_params"] = GeneralProjectionParams(**pr)
    att = cls(task=task, **kw)
    att._pv_model = m
    return att


def formula(c, phi_tr, phi_te, phi_fit=None, hessian=None):
    """Scores, self scores and an error bound of a float32 evaluation."""
    score, diag, tol = 0.0, 0.0, 0.0
    for n in phi_tr:
        a, b = phi_tr[n], phi_te[n]
        k = a.shape[1]
        inv = torch.eye(k, dtype=torch.float64)
        cond = 1.0
        if (hessian or c["hessian"]) == "eFIM":
            fit = a if phi_fit is None else phi_fit[n]
            h = fit.T @ fit / len(fit)
            damp = 1e-5 if c["damping"] is None else c["damping"]
            h = h + damp * torch.trace(h) / k * inv
            if float(torch.trace(h)) < 1e-20:
                return None
            # an undamped matrix must be well conditioned by itself
            if float(torch.linalg.cond(h)) > 1e6:
                return None
            inv = torch.linalg.inv(h)
            cond = float(torch.linalg.cond(h))
        score = score + a @ inv @ b.T
        diag = diag + ((a @ inv) * a).sum(1)
        op = float(torch.linalg.matrix_norm(inv, 2))
        big = max(float(a.norm(dim=1).max()), float(b.norm(dim=1).max()))
        tol += 20 * EPS * (cond + 20) * op * big ** 2
    return score, diag, tol


def compare(got, want, tol, what):
    close(got, want, what, rtol=0.0, atol=tol + 1e-12)


def check_exact(c):
    set_dtype(c)
    tgt = c["target"] or c["loss"]
    cache_dir = "store" if c["offload"] == "disk" or c["same_dir"] else None
    att = None
    for p in c["prior"]:
        if att is None or p["obj"] == "other":
            att = make_att(c, cache_dir)
        att.cache(loader(c, p["tr"]))
        if p["attr"]:
            att.attribute(loader(c, p["tr"]), loader(c, c["te"]))
    if att is None or c["prior"][-1]["obj"] == "other":
        att = make_att(c, cache_dir)
    before = {k: v.clone() for k, v in att._pv_model.state_dict().items()}
    tr, te = loader(c, c["tr"]), loader(c, c["te"])
    again = any(p["obj"] == "same" for p in c["prior"])
    if c["via"] == "cache" or (c["prior"] and c["prior"][-1]["obj"] == "same"):
        att.cache(tr)
    got = att.attribute(tr, te)
    ptr = layer_grads(c, c["loss"], *delivered(c, c["tr"]))
    pte = layer_grads(c, tgt, *delivered(c, c["te"]))
    f = formula(c, ptr, pte)
    if f is None:
        return Result(False, ("zero-gradients",))
    want, diag, tol = f
    compare(got, want, tol, "scores")
    compare(att.attribute(tr, te), want, tol, "scores, second call")
    compare(att.compute_self_attribution(), diag, tol, "self-attribution")
    if c["sub"]:
        sub = layer_grads(c, c["loss"], *delivered(c, c["sub"]))
        w2, _, t2 = formula(c, sub, pte, phi_fit=ptr)
        compare(att.attribute(loader(c, c["sub"]), te), w2, t2 + tol,
                "scores of other training samples than those cached")
        compare(att.attribute(tr, te), want, tol, "scores after a subset call")
    if c.get("redamp"):
        # the public steps of caching, with another damping
        att.compute_preconditioners(damping=c["redamp"])
        att.compute_ifvp()
        w3, d3, t3 = formula({**c, "damping": c["redamp"]}, ptr, pte)
        compare(att.attribute(tr, te), w3, t3 + tol,
                "scores after compute_preconditioners(damping=...)")
        compare(att.compute_self_attribution(), d3, t3 + tol,
                "self-attribution after compute_preconditioners(damping=...)")
    if c["reopen"]:
        del att
        att = make_att(c, cache_dir)
        compare(att.compute_self_attribution(), diag, tol,
                "self-attribution of a reopened store")
    for k, v in att._pv_model.state_dict().items():
        require(torch.equal(v, before[k]), "model state %s changed" % k)
    n = len(delivered(c, c["tr"])[0])
    return Result(n > c["tr"]["bs"], (
        c["offload"], c["hessian"], c["kind"], "seq" if c["net"]["seq"] else "2d",
        "prior%d" % len(c["prior"]), *(["sub"] if c["sub"] else []),
        *(["again"] if again else []),
        *(["redamp"] if c.get("redamp") else []), *(["reopen"] if c["reopen"] else []),
        *(["target"] if tgt != c["loss"] else [])))


def stored(att, c):
    """Stored training features per layer."""
    n = math.ceil(c["tr"]["n"] / c["tr"]["bs"])
    rows = [att.offload_manager.retrieve_gradients(i) for i in range(n)]
    return {name: torch.cat([r[j].double() for r in rows])
            for j, name in enumerate(layer_names(c))}


def fit_map(c, grads, phi, what):
    """The linear map grads -> phi; the residual must vanish."""
    sol = torch.linalg.lstsq(grads, phi, driver="gelsd").solution
    err = float((grads @ sol - phi).abs().max())
    scale = float(phi.abs().max())
    require(err <= 2e-4 * max(scale, 1e-6),
            "%s: stored features are not a linear map of the gradients "
            "(residual %.3g of %.3g)" % (what, err, scale))
    return sol


def vanishing(phi, grads):
    """Whether compression cancels the gradients of a layer (the logit
    gradients of two classes sum to zero, for example)."""
    return any(float(phi[n].abs().max()) < 1e-4 * float(g.abs().max()) + 1e-9
               for n, g in grads.items())


def factgrass_ok(c):
    k = c["sp"]["proj_dim_per_layer"] * c["blow"]
    return math.isqrt(k) ** 2 == k


def check_projected(c):
    set_dtype(c)
    if c["method"] == "factgrass" and not factgrass_ok(c):
        try:
            make_att(c, "store")
        except ValueError:
            return Result(False, ("refused",))
        raise Violation("a compression dimension that is no square was accepted")
    tgt = c["target"] or c["loss"]
    att = make_att(c, "store")
    tr, te = loader(c, c["tr"]), loader(c, c["te"])
    g_tr = layer_grads(c, c["loss"], *delivered(c, c["tr"]))
    try:
        att.cache(tr)
    except torch.linalg.LinAlgError:
        # the relative damping of a zero matrix is zero
        if vanishing(stored(att, c), g_tr):
            return Result(False, ("zero-features",))
        raise
    got = att.attribute(tr, te)
    phi = stored(att, c)
    if vanishing(phi, g_tr):
        return Result(False, ("zero-features",))
    g_te = layer_grads(c, tgt, *delivered(c, c["te"]))
    nontrivial = True
    phi_te = {}
    maps = {}
    for n, g in g_tr.items():
        require(len(phi[n]) == len(g), "%s: %d stored rows for %d samples" % (
            n, len(phi[n]), len(g)))
        maps[n] = fit_map(c, g, phi[n], n)
        # test gradients outside the span of the training gradients have
        # features the fitted map does not know
        weights = g_te[n] @ torch.linalg.pinv(g, rtol=1e-6)
        off = (g_te[n] - weights @ g).abs().max()
        if float(off) > 1e-6 * max(float(g_te[n].abs().max()), 1e-9):
            nontrivial = False
        # ... and nearly so: the float32 error of the stored features is
        # amplified by these weights
        if float(weights.abs().sum(1).max()) > 100:
            nontrivial = False
        phi_te[n] = g_te[n] @ maps[n]
        if c["method"] == "logra":
            want = c["sp"]["proj_dim_per_layer"]
            require(phi[n].shape[1] == want, "%s: compressed to %d, not %d" % (
                n, phi[n].shape[1], want))
        elif c["method"] == "factgrass":
            require(phi[n].shape[1] == c["sp"]["proj_dim_per_layer"],
                    "%s: compressed to %d" % (n, phi[n].shape[1]))
    if nontrivial:
        f = formula(c, phi, phi_te)
        if f is None:
            return Result(False, ("zero-features",))
        want, diag, tol = f
        compare(got, want, 20 * tol, "scores")
        compare(att.compute_self_attribution(), diag, 20 * tol,
                "self-attribution")
    # the same configuration makes the same features with other batches
    c2 = {**c, "tr": {**c["tr"], "bs": c["tr"]["bs"] + 1},
          "offload": "none", "chunk": c["chunk"] + 1}
    att2 = make_att(c2, None)
    att2.cache(loader(c2, c2["tr"]))
    phi2 = stored(att2, c2)
    for n in phi:
        close(phi2[n], phi[n], n + ": features with another batch size",
              rtol=1e-4, atol=1e-6)
    # another seed makes another random map
    if c["method"] != "general" or "normal" in (c["sp"]["proj_type"],
                                                c["pr"]["proj_type"]):
        att3 = make_att(c2, None, seed_shift=17)
        att3.cache(loader(c2, c2["tr"]))
        phi3 = stored(att3, c2)
        for n in phi:
            scale = float(g_tr[n].abs().max())
            if scale > 1e-3 and phi[n].abs().max() > 1e-6 and \
                    phi3[n].abs().max() > 1e-6:
                require((phi3[n] - phi[n]).abs().max() > 1e-9 * scale,
                        n + ": features do not depend on the seed")
    return Result(nontrivial, (c["method"], c["offload"], c["hessian"],
                               "seq" if c["net"]["seq"] else "2d"))


@st.composite
def unbiased_cases(draw):
    c = draw(cases("projected"))
    c["net"]["seq"] = draw(st.sampled_from([0, 2]))
    c["net"]["d"], c["net"]["odd"] = draw(st.integers(2, 3)), None
    c["net"]["hidden"] = c["net"]["hidden"][:1]
    c["net"]["bias"] = c["net"]["bias"][:len(c["net"]["hidden"]) + 1]
    c["layers"] = None
    c["offload"], c["f64"] = "none", False
    c["method"] = draw(st.sampled_from(["general", "general", "logra"]))
    if c["method"] == "general":
        same = draw(st.integers(0, 5))
        c["sp"] = {"proj_dim": draw(st.integers(3, 5)), "proj_seed": same,
                   "proj_max_batch_size": 8,
                   "proj_type": draw(st.sampled_from(["normal", "rademacher"]))}
        c["pr"] = {"proj_dim": draw(st.integers(6, 9)),
                   "proj_max_batch_size": 8, "proj_seed":
                   draw(st.sampled_from([same, same, 33])),
                   "proj_type": draw(st.sampled_from(["normal", "rademacher"]))}
    else:
        c["sp"] = {"proj_dim_per_layer": draw(st.sampled_from([9, 16])),
                   "proj_seed": draw(st.integers(0, 40)),
                   "proj_max_batch_size": 8}
        c["pr"] = None
    for s in ("tr", "te"):
        c[s] = {"n": 3, "seed": draw(st.integers(0, 99)), "bs": 2, "idx": None}
    return c


def check_unbiased(c):
    """Seeds differ by large steps; the mean of the compressed inner products
    over seeds must approach the true inner products of each layer."""
    set_dtype(c)
    g = layer_grads(c, c["loss"], *delivered(c, c["tr"]))
    reps, sums, sq = 120, {}, {}
    for r in range(reps):
        att = make_att(c, None, hessian="Identity", seed_shift=1000003 * r)
        att.cache(loader(c, c["tr"]))
        for n, p in stored(att, c).items():
            k = p @ p.T
            sums[n] = sums.get(n, 0) + k
            sq[n] = sq.get(n, 0) + k ** 2
    for n in g:
        mean = sums[n] / reps
        sd = (sq[n] / reps - mean ** 2).clamp(min=0).sqrt() / math.sqrt(reps)
        want = g[n] @ g[n].T
        scale = float(want.abs().max())
        if scale < 1e-9:
            continue
        bad = (mean - want).abs() > 6 * sd + 0.05 * scale
        require(not bool(bad.any()),
                "%s: compressed inner products are biased: mean %s, true %s, "
                "standard error %s" % (n, mean[bad][:2].tolist(),
                                       want[bad][:2].tolist(),
                                       sd[bad][:2].tolist()))
    return Result(True, (c["method"],))


@st.composite
def pair_cases(draw):
    d = draw(st.integers(2, 4))
    logra = draw(st.integers(0, 2)) == 0
    return {"d": d, "logra": logra, "k": draw(st.integers(2, 3)),
            "type": draw(st.sampled_from(["normal", "rademacher"])),
            "seq": draw(st.sampled_from([0, 2])),
            "seed": draw(st.integers(0, 999)),
            "second": draw(st.booleans()), "step": draw(st.sampled_from(
                [1, 7, 100003])), "f64": False}


def check_pairs(c):
    """Layer gradients e_i x e_j chosen by the harness: the compressed inner
    products of different ones must vanish on average over seeds, which needs
    independent maps for the two sides of a layer and the second stage."""
    from dattri.algorithm import LoGraAttributor
    from dattri.algorithm.block_projected_if.block_projected_if import (
        BlockProjectedIFAttributor)
    from dattri.params.projection import (GeneralProjectionParams,
                                          LoGraProjectionParams)
    from dattri.task import AttributionTask

    set_dtype(c)
    d, k, reps = c["d"], c["k"], 300
    eye = torch.eye(d)
    x = torch.stack([eye[0], eye[1], eye[0], eye[1]])
    v = torch.stack([eye[1], eye[0], eye[0], eye[1]])
    if c["seq"]:
        x, v = (torch.stack([t, torch.zeros_like(t)], 1) for t in (x, v))

    def loss(model, batch, device):
        return (model(batch[0]) * batch[1]).sum() / len(batch[0])

    data = torch.utils.data.DataLoader(
        torch.utils.data.TensorDataset(x, v), batch_size=4)
    total, square = 0.0, 0.0
    for r in range(reps):
        m = torch.nn.Sequential(torch.nn.Linear(d, d, bias=False))
        task = AttributionTask(loss_func=loss, model=m,
                               checkpoints=m.state_dict())
        seed = c["seed"] + c["step"] * r
        kw = {"layer_names": ["0"], "hessian": "Identity", "offload": "none"}
        one = {"proj_seed": seed, "proj_max_batch_size": 8}
        if c["logra"]:
            att = LoGraAttributor(task=task, proj_params=LoGraProjectionParams(
                **one, proj_dim_per_layer=k * k), **kw)
        else:
            att = BlockProjectedIFAttributor(
                task=task, sparsifier_params=GeneralProjectionParams(
                    **one, proj_type=c["type"], proj_dim=k),
                projector_params=GeneralProjectionParams(
                    **one, proj_type=c["type"], proj_dim=2 * k)
                if c["second"] else GeneralProjectionParams(
                    proj_dim=-1, proj_type="identity"), **kw)
        att.cache(data)
        phi = att.offload_manager.retrieve_gradients(0)[0].double()
        gram = phi @ phi.T
        total, square = total + gram, square + gram ** 2
    mean = total / reps
    sd = (square / reps - mean ** 2).clamp(min=0).sqrt() / math.sqrt(reps)
    bad = (mean - torch.eye(4)).abs() > 5.5 * sd + 0.03
    require(not bool(bad.any()),
            "compressed inner products of e_i x e_j are biased: mean %s" % (
                mean.tolist(),))
    return Result(True, ("logra" if c["logra"] else c["type"],))


SUBS = [
    Sub("exact", cases("exact"), check_exact, 500, 6000, shards=4),
    Sub("projected", cases("projected"), check_projected, 240, 4000, shards=4),
    Sub("unbiased", unbiased_cases(), check_unbiased, 40, 400, shards=4),
    Sub("pairs", pair_cases(), check_pairs, 16, 200, shards=4),
]
