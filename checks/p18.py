"""P18: data-value embeddings replay the training trajectory."""
import math

from pv.core import Result, Sub, Violation
from pv.gen import F, SEEDS, close, nn, require, set_dtype, st, torch

PROP = "P18"
RULE = (
    "A case is a network of linear layers (2-D or sequence inputs, some frozen), "
    "1-3 epochs with arbitrary ids of 1-3 SGD steps each with their own batch "
    "(indices may repeat) and learning rate, the caching call used (before, "
    "between or after backward and step, or the context manager), the "
    "factorization, the layers, the projection, and attribution calls for "
    "epochs and index lists. The parameters really move. Scores must equal a "
    "float64 recursion over per-sample gradients (projected ones: over the "
    "projected gradients a fresh attributor reports for a one-step trajectory; "
    "the projected gradient itself must be a fixed bilinear map that preserves "
    "inner products on average over seeds). Non-trivial: at least two steps and "
    "a score that the correction term changes."
)
ASSUMPTIONS = [
    "Losses are means over the batch, as the factorised mode documents.",
    "Projected factor modes describe the weights of the layers only.",
]


class SNet(nn.Module):
    def __init__(self, c):
        super().__init__()
        dims = [c["d"], *c["hidden"], c["o"]]
        self.body = nn.ModuleList(
            nn.Linear(dims[i], dims[i + 1], bias=c["bias"][i])
            for i in range(len(dims) - 1))
        for i in c["frozen"]:
            for p in self.body[i].parameters():
                p.requires_grad_(False)
        # "in": layer outputs are changed in place; "twice": the first layer
        # is used twice; "idle" / "side": a layer without gradients
        self.odd = c.get("odd")
        self.ref = False
        if self.odd in ("idle", "side"):
            self.extra = nn.Linear(c["d"], 2)

    def forward(self, x):
        if self.odd == "side":
            self.extra(x)
        for i, layer in enumerate(self.body):
            if self.odd == "strided":  # same values, not contiguous
                x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
            x = layer(x)
            if self.odd == "twice" and i == 0:
                x = layer(torch.tanh(x))
            if self.odd == "in":
                x = x * 1.5 if self.ref else x.mul_(1.5)
            if i + 1 < len(self.body):
                x = torch.tanh(x)
        return x.mean(1) if x.dim() == 3 else x


def make_model(c, salt=0, double=False):
    m = SNet(c)
    g = torch.Generator().manual_seed(c["seed"] + 1000 * salt)
    sd = {k: torch.randn(v.shape, generator=g, dtype=torch.float64) /
          math.sqrt(v.shape[-1]) for k, v in m.state_dict().items()}
    m.ref = double
    m.to(torch.float64 if double else torch.get_default_dtype())
    m.load_state_dict(sd)
    return m


def samples(c, n, salt):
    g = torch.Generator().manual_seed(c["seed"] * 3 + salt)
    shape = (n, c["seq"], c["d"]) if c["seq"] else (n, c["d"])
    x = torch.randn(shape, generator=g, dtype=torch.float64)
    return x, torch.randint(0, c["o"], (n,), generator=g)


@st.composite
def cases(draw, proj=False):
    nh = draw(st.integers(0, 2))
    # now and then a longer history of more samples
    big = draw(st.integers(0, 13)) == 0
    c = {"d": draw(st.integers(1, 3)), "o": draw(st.integers(2, 3)),
         "hidden": [draw(st.integers(1, 3)) for _ in range(nh)],
         "bias": [draw(st.booleans()) for _ in range(nh + 1)],
         "seed": draw(SEEDS), "seq": draw(st.sampled_from([0, 0, 1, 3])),
         "frozen": [], "f64": draw(st.integers(0, 4)) > 0,
         "mode": draw(st.sampled_from(["none", "kronecker", "elementwise"])),
         "n": draw(st.integers(6, 80) if big else st.integers(1, 5)),
         "m": draw(st.integers(4, 40) if big else st.integers(1, 3)),
         "tbs": draw(st.integers(1, 20) if big else st.integers(1, 4)),
         "layers": None, "proj": None}
    c["odd"] = draw(st.sampled_from([None] * 5 + [
        "in", "twice", "idle", "side", "strided"]))
    if c["odd"] == "twice":
        if nh:
            c["hidden"][0] = c["d"]
        else:
            c["odd"] = None
    if nh and draw(st.integers(0, 2)) == 0:
        c["frozen"] = [draw(st.integers(0, nh))]
    fac = c["mode"] != "none"
    left = [i for i in range(nh + 1) if i not in c["frozen"]]
    if fac and draw(st.booleans()):
        # a list of distinct layers in any order, or a single name
        perm = draw(st.permutations(left))
        c["layers"] = ["body.%d" % i
                       for i in perm[:draw(st.integers(1, len(left)))]]
        if len(c["layers"]) == 1 and draw(st.booleans()):
            c["layers"] = c["layers"][0]
    elif fac and c["frozen"]:
        c["layers"] = ["body.%d" % i for i in left]
    if proj:
        c["proj"] = {"proj_dim_per_layer": draw(st.sampled_from(
            [1, 2, 4, 5, 9, 16, 30])), "proj_seed": draw(st.integers(0, 50)),
            "proj_max_batch_size": 8}
        t = draw(st.sampled_from([None, "normal", "rademacher"] + (
            ["random_mask", "identity"] if c["mode"] == "none" else [])))
        if t:
            c["proj"]["proj_type"] = t
    c["api"] = draw(st.sampled_from(
        ["before", "between", "after"] + (["context"] * 2 if fac else [])))
    c["traj"] = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        ids = draw(st.lists(st.one_of(
            *[st.integers(0, 5)] * 3, st.sampled_from([9, 10, 11, 100])),
            min_size=1, max_size=13 if big else 3, unique=True))
        # the context manager also sees steps that fail
        c["traj"].append([
            {"epoch": e, "idx": draw(st.lists(
                st.integers(0, c["n"] - 1), min_size=1,
                max_size=40 if big else 4)),
             "lr": draw(st.sampled_from([0.0, 0.05, 0.3, 1.0])),
             "peek": c["api"] == "context" and draw(st.integers(0, 3)) == 0,
             "fail": c["api"] == "context" and draw(st.integers(0, 6)) == 0
             and draw(st.sampled_from([1, 2]))}
            for e in sorted(ids) for _ in range(draw(
                st.integers(1, 12 if big and len(ids) < 4 else 3)))])
    c["saving"] = draw(st.booleans())
    c["again"] = draw(st.booleans())
    c["reuse"] = draw(st.integers(0, 2)) == 0
    c["queries"] = [
        {"epoch": draw(st.sampled_from(["all", "some"])), "pick":
         draw(st.integers(0, 5)), "rows": draw(st.one_of(
             st.none(), st.lists(st.integers(0, 4), min_size=1, max_size=4)))}
        for _ in range(draw(st.integers(1, 3)))]
    return c


def task_for(c, model):
    from dattri.task import AttributionTask

    if c["mode"] == "none":
        def f(params, data):
            x, y = data
            x = x.reshape(-1, *((c["seq"], c["d"]) if c["seq"] else (c["d"],)))
            out = torch.func.functional_call(model, params, (x,))
            return F.cross_entropy(out, y.reshape(-1).long())
    else:
        def f(model, data, device):
            x, y = data
            return F.cross_entropy(model(x.to(device)), y.to(device))
    return AttributionTask(loss_func=f, model=model,
                           checkpoints=[model.state_dict()])


def make_att(c, model):
    from dattri.algorithm.dvemb import DVEmbAttributor
    from dattri.params.projection import DVEmbProjectionParams

    kw = {}
    if c["proj"]:
        kw["proj_params"] = DVEmbProjectionParams(**c["proj"])
    return DVEmbAttributor(task_for(c, model), factorization_type=c["mode"],
                           layer_names=c["layers"], **kw)


def grad_names(c, model):
    if c["mode"] == "none":
        return [n for n, p in model.named_parameters() if p.requires_grad]
    ls = c["layers"]
    ls = [ls] if isinstance(ls, str) else ls
    if ls is None:
        ls = ["body.%d" % i for i in range(len(model.body))]
    return [n for s in ls for n, _ in model.named_parameters()
            if n.startswith(s + ".")]


def per_sample(c, model, x, y, names):
    """Float64 per-sample gradients at the model's parameters."""
    ps = dict(model.named_parameters())
    rows = []
    for i in range(len(x)):
        val = F.cross_entropy(model(x[i:i + 1]), y[i:i + 1])
        gs = torch.autograd.grad(val, [ps[n] for n in names],
                                 allow_unused=True)
        rows.append(torch.cat([
            (torch.zeros_like(ps[n]) if g is None else g).reshape(-1)
            for n, g in zip(names, gs)]))
    return torch.stack(rows)


def phi_fresh(c, state, x, y):
    """Projected gradients reported for a one-step trajectory."""
    m = make_model(c)
    m.load_state_dict(state)
    a = make_att(c, m)
    a.cache_gradients(0, (x, y), torch.arange(len(x)), float(len(x)))
    a.cache()
    return a.embeddings[0].double()


def sgd(model, x, y, lr):
    ps = [p for p in model.parameters() if p.requires_grad]
    gs = torch.autograd.grad(F.cross_entropy(model(x), y), ps,
                             allow_unused=True)
    with torch.no_grad():
        for p, g in zip(ps, gs):
            if g is not None:
                p -= lr * g


class Boom(Exception):
    pass


def train_step(c, att, model, opt, s, x, y, idx):
    """One step of the user's training loop, with the caching call."""
    for g in opt.param_groups:
        g["lr"] = s["lr"]
    if c["api"] == "context":
        try:
            with att.cache_gradients_context(
                    epoch=s["epoch"], indices=idx, learning_rate=s["lr"]):
                if s["fail"] == 1:
                    raise Boom
                opt.zero_grad()
                if s["peek"]:
                    # not part of the step: an evaluation in between
                    with torch.no_grad():
                        model(-x[:1])
                loss = F.cross_entropy(model(x), y)
                if s["fail"] == 2:
                    raise Boom
                loss.backward()
                opt.step()
        except Boom:
            require(s["fail"], "unexpected Boom")
        return
    call = lambda: att.cache_gradients(s["epoch"], (x, y), idx, s["lr"])  # noqa
    opt.zero_grad()
    if c["api"] == "before":
        call()
        opt.zero_grad()
    F.cross_entropy(model(x), y).backward()
    if c["api"] == "between":
        call()
    if c["api"] == "after":
        # gradients belong to the parameters before the update
        keep = {k: v.clone() for k, v in model.state_dict().items()}
        opt.step()
        moved = {k: v.clone() for k, v in model.state_dict().items()}
        model.load_state_dict(keep)
        call()
        model.load_state_dict(moved)
    else:
        opt.step()


def check(c):
    set_dtype(c)
    dt = torch.get_default_dtype()
    x64, y = samples(c, c["n"], 1)
    xt64, yt = samples(c, c["m"], 2)
    model = make_model(c)
    att = make_att(c, model)
    corr = False
    steps = 0
    for k, traj in enumerate(c["traj"]):
        model.load_state_dict(make_model(c, k).state_dict())
        model.train()
        ref = make_model(c, k, double=True)
        names = grad_names(c, ref)
        opt = torch.optim.SGD(
            [p for p in model.parameters() if p.requires_grad], lr=0.1)
        done = []
        for s in traj:
            x, yy = x64[s["idx"]], y[s["idx"]]
            if c["proj"]:
                if not s["fail"]:
                    g = phi_fresh(c, model.state_dict(), x.to(dt), yy)
            else:
                g = per_sample(c, ref, x, yy, names)
            xb = x.to(dt).clone()
            yb = yy.clone()
            ib = torch.tensor(s["idx"])
            train_step(c, att, model, opt, s, xb, yb, ib)
            if c["reuse"]:
                # the next batch is loaded into the same memory
                xb.fill_(7.0)
                yb.zero_()
                ib.zero_()
            if s["fail"]:
                continue
            done.append((s, g))
            sgd(ref, x, yy, s["lr"])
        for (n, p), (_, q) in zip(model.state_dict().items(),
                                  ref.state_dict().items()):
            close(p, q, "trained parameter " + n,
                  rtol=1e-9 if c["f64"] else 1e-3, scale=1.0)
        if not done:
            return Result(False)
        steps += len(done)
        # reference recursion
        rows = max(max(s["idx"]) for s, _ in done) + 1
        p = done[0][1].shape[1]
        M = torch.zeros(p, p, dtype=torch.float64)
        emb, plain = {}, {}
        for s, g in sorted(done, key=lambda t: t[0]["epoch"])[::-1]:
            e = emb.setdefault(s["epoch"], torch.zeros(
                rows, p, dtype=torch.float64))
            q = plain.setdefault(s["epoch"], torch.zeros_like(e))
            eta = s["lr"] / len(s["idx"])
            d = eta * (g - g @ M.T)
            for j, i in enumerate(s["idx"]):
                e[i] += d[j]
                q[i] += eta * g[j]
            M = M + d.T @ g
        scale = max(float(v.abs().max()) for v in emb.values())
        if not math.isfinite(scale) or scale > 1e3:
            return Result(False)
        att.cache(memory_saving=c["saving"] or k + 1 < len(c["traj"]))
        if c["again"] and not (c["saving"] or k + 1 < len(c["traj"])):
            att.cache(memory_saving=False)
        if c["proj"]:
            t = phi_fresh(c, model.state_dict(), xt64.to(dt), yt)
        else:
            t = per_sample(c, ref, xt64, yt, names)
        test = torch.utils.data.DataLoader(
            torch.utils.data.TensorDataset(xt64.to(dt), yt),
            batch_size=c["tbs"])
        want_all = sum(emb.values()) @ t.T
        corr = corr or float(
            ((sum(plain.values()) - sum(emb.values())) @ t.T).abs().max()) > 1e-3
        tol = {"rtol": 1e-8 if c["f64"] else 5e-3,
               "scale": max(1.0, float(t.abs().max()) * scale)}
        for q in c["queries"]:
            eps = sorted(emb)
            e = None if q["epoch"] == "all" else eps[q["pick"] % len(eps)]
            want = want_all if e is None else emb[e] @ t.T
            idx = None
            if q["rows"] is not None:
                idx = [r % rows for r in q["rows"]]
                want = want[idx]
            got = att.attribute(test, epoch=e, train_data_indices=idx)
            close(got, want, "trajectory %d scores epoch=%r rows=%r" % (
                k, e, idx), **tol)
        require(set(att.embeddings) == set(emb), "epochs with embeddings: %s, "
                "trained in this trajectory: %s" % (
                    sorted(att.embeddings), sorted(emb)))
    return Result(steps >= 2 and corr, [
        c["mode"], c["api"], "seq" if c["seq"] else "flat",
        *(["frozen"] if c["frozen"] else []),
        *(["reused-memory"] if c["reuse"] else []),
        *(["two-trajectories"] if len(c["traj"]) > 1 else []),
        *(["layers"] if c["layers"] else [])])


# ------------------------------------------------------- external gradients
@st.composite
def ext_cases(draw):
    return {"d": draw(st.integers(1, 3)), "o": draw(st.integers(2, 3)),
            "hidden": [], "bias": [draw(st.booleans())], "seed": draw(SEEDS),
            "seq": 0, "frozen": [], "mode": "none", "layers": None,
            "proj": None, "f64": True, "n": draw(st.integers(1, 4)),
            "m": draw(st.integers(1, 3)), "lrs": draw(st.booleans()),
            "saving": draw(st.booleans()), "part": draw(st.booleans()),
            "flip": draw(st.booleans()),
            "steps": draw(st.lists(st.tuples(
                st.integers(0, 3), st.lists(st.integers(0, 3), min_size=1,
                                            max_size=3)),
                min_size=1, max_size=4))}


def check_ext(c):
    set_dtype(c)
    x, y = samples(c, 4, 1)
    xt, yt = samples(c, c["m"], 2)
    model = make_model(c)
    att = make_att(c, model)
    g = torch.Generator().manual_seed(c["seed"] + 9)
    p = sum(v.numel() for v in model.parameters())
    grads, lrs, ref = {}, {}, []
    for e, idx in sorted(c["steps"], key=lambda s: s[0]):
        att.cache_gradients(e, (x[idx], y[idx]), torch.tensor(idx), 0.2)
        grads.setdefault(e, []).append(torch.randn(len(idx), p, generator=g))
        lrs.setdefault(e, []).append(float(torch.rand(1, generator=g)) * 0.3)
        ref.append((e, idx, grads[e][-1],
                    lrs[e][-1] if c["lrs"] else 0.2 / len(idx)))
    if c["lrs"] and c["part"] and len(lrs) > 1:
        # gradients and learning rates of some of the epochs: only these count
        gone = sorted(lrs)[c["seed"] % len(lrs)]
        del grads[gone], lrs[gone]
        ref = [r for r in ref if r[0] != gone]
    if c["flip"]:
        grads = dict(reversed(grads.items()))
        lrs = dict(reversed(lrs.items()))
    keep = {e: [t.clone() for t in v] for e, v in grads.items()}
    keep_lr = {e: list(v) for e, v in lrs.items()}
    att.cache(grads, lrs if c["lrs"] else None, memory_saving=c["saving"])
    require(set(grads) == set(keep) and all(
        len(grads[e]) == len(keep[e]) and
        all(torch.equal(a, b) for a, b in zip(grads[e], keep[e]))
        for e in keep), "the gradients given by the caller were changed")
    require(lrs == keep_lr, "the learning rates given were changed")
    rows = max(max(idx) for _, idx in c["steps"]) + 1
    M = torch.zeros(p, p)
    emb = torch.zeros(rows, p)
    for _, idx, gr, eta in ref[::-1]:
        d = eta * (gr - gr @ M.T)
        for j, i in enumerate(idx):
            emb[i] += d[j]
        M = M + d.T @ gr
    t = per_sample(c, make_model(c, double=True), xt, yt, grad_names(c, model))
    test = torch.utils.data.DataLoader(
        torch.utils.data.TensorDataset(xt, yt), batch_size=2)
    close(att.attribute(test), emb @ t.T, "scores from given gradients",
          rtol=1e-8, scale=max(1.0, float((emb.abs() @ t.abs().T).max())))
    return Result(len(ref) > 1, ["own-lr" if c["lrs"] else "cached-lr"])


# ---------------------------------------------------- the projected gradient
@st.composite
def map_cases(draw):
    return {"d": draw(st.integers(1, 4)), "o": draw(st.integers(1, 4)),
            "k": draw(st.sampled_from([64, 100, 144])),
            "mode": draw(st.sampled_from(["kronecker", "elementwise"])),
            "seed": draw(st.integers(0, 3000)), "seq": draw(st.integers(1, 3)),
            "type": draw(st.sampled_from(["normal", "rademacher", "default"]))}


def check_map(c):
    """Projected gradient of one linear layer with given factors."""
    from dattri.algorithm.dvemb import DVEmbAttributor
    from dattri.params.projection import DVEmbProjectionParams
    from dattri.task import AttributionTask

    torch.set_default_dtype(torch.float64)
    d, o, L = c["d"], c["o"], c["seq"]

    def phi(seed, x, v):
        m = nn.Linear(d, o, bias=False)

        def f(model, data, device):
            # per-sample gradient of the weight: sum over l of v_l x_l^T
            a, b = data
            out = (model(a) * b).reshape(len(a), -1).sum(-1)
            return out.mean()

        kw = {} if c["type"] == "default" else {"proj_type": c["type"]}
        att = DVEmbAttributor(
            AttributionTask(loss_func=f, model=m, checkpoints=[m.state_dict()]),
            factorization_type=c["mode"],
            proj_params=DVEmbProjectionParams(
                proj_dim_per_layer=c["k"], proj_seed=seed, **kw))
        att.cache_gradients(0, (x, v), torch.arange(len(x)), float(len(x)))
        att.cache()
        return att.embeddings[0]

    g = torch.Generator().manual_seed(c["seed"])
    rn = lambda *s: torch.randn(*s, generator=g)  # noqa: E731
    eye_x = torch.eye(d).repeat_interleave(o, 0)
    eye_v = torch.eye(o).repeat(d, 1)
    X, V = rn(3, L, d), rn(3, L, o)
    G = torch.einsum("nli,nlo->nio", X, V).reshape(3, d * o)
    want = G @ G.T
    prods, gram = [], []
    for s in range(40):
        # flat and sequence inputs may order the coordinates differently
        B = phi(c["seed"] + s, eye_x[:, None], eye_v[:, None])
        P = phi(c["seed"] + s, X, V)
        if s < 2:
            close(P, G @ B, "projected gradient against the map given by basis "
                  "gradients", rtol=1e-9, scale=float(B.abs().max()) *
                  float(G.abs().sum()))
            close(phi(c["seed"] + s, X[1:2, 0], V[1:2, 0]),
                  torch.outer(X[1, 0], V[1, 0]).reshape(1, -1) @
                  phi(c["seed"] + s, eye_x, eye_v),
                  "flat input against the map given by basis gradients",
                  rtol=1e-9,
                  scale=float(B.abs().max()))
        prods.append(P @ P.T)
        gram.append(B @ B.T)
    for name, vals, w in (("random gradients", torch.stack(prods), want),
                          ("basis gradients", torch.stack(gram),
                           torch.eye(d * o))):
        mean = vals.mean(0)
        se = vals.std(0) / math.sqrt(len(vals))
        bad = (mean - w).abs() - 8 * se - 1e-9
        if float(bad.max()) > 0:
            i = int(bad.argmax())
            raise Violation(
                "inner products of %s over 40 seeds average to %.4g (s.e. %.2g)"
                ", exact %.4g" % (name, float(mean.reshape(-1)[i]),
                                  float(se.reshape(-1)[i]),
                                  float(w.reshape(-1)[i])))
    return Result(d * o > 1, [c["mode"], c["type"],
                              "square" if d == o else "rect"])


# --------------------------------------- projected gradients of a network
@st.composite
def net_cases(draw):
    c = draw(cases(proj=True))
    c.update(f64=True, api="before", traj=[], queries=[])
    if c["mode"] == "none":
        c["proj"]["proj_dim_per_layer"] = draw(st.sampled_from([3, 64, 130]))
    else:
        c["proj"]["proj_dim_per_layer"] = draw(st.sampled_from([64, 100]))
    return c


def check_net(c):
    """A linear map of the true gradients, same at all parameters and calls."""
    set_dtype(c)
    gs, ph = [], []
    names = grad_names(c, make_model(c))
    if c["mode"] != "none":
        names = [n for n in names if n.endswith("weight")]
    p = sum(make_model(c).state_dict()[n].numel() for n in names)
    for k in range(2):
        m = make_model(c, k, double=True)
        x, y = samples(c, p + 3, 5 + k)
        gs.append(per_sample(c, m, x, y, names))
        a = make_att(c, make_model(c, k))
        for lo, hi in ((0, 2), (2, len(x))):
            a.cache_gradients(lo, (x[lo:hi], y[lo:hi]), torch.arange(lo, hi),
                              1e-9 * (hi - lo))
        a.cache()
        ph.append(sum(a.embeddings.values()) * 1e9)
    G, P = torch.cat(gs), torch.cat(ph)
    fit = torch.linalg.pinv(G, rtol=1e-8) @ P
    close(G @ fit, P, "projected gradients as one linear map of the true "
          "gradients", rtol=1e-5, scale=max(1.0, float(P.abs().max())))
    if c["mode"] == "none":
        from pv.gen import projection_matrix
        kw = dict(c["proj"])
        q = projection_matrix(p, {
            "proj_dim": kw["proj_dim_per_layer"], "proj_seed": kw["proj_seed"],
            "proj_type": kw.get("proj_type", "normal"),
            "proj_max_batch_size": 8}, 0)
        close(P, G @ q, "projected gradients", rtol=1e-5,
              scale=max(1.0, float(P.abs().max())))
        return Result(p > 1, ["none"])
    if c["proj"].get("proj_type") == "rademacher" and p > 1:
        # products of signs: the same magnitude for every coordinate gradient
        layers = [n for n in names]
        if len(layers) == 1 and int(torch.linalg.matrix_rank(G)) == p:
            mag = fit.abs()
            require(float(mag.max() - mag.min()) < 1e-4 * float(mag.max()),
                    "rademacher projection with entries of different sizes")
    G = G[:4]
    k, x, y = 0, *samples(c, p + 3, 5)
    st_ = make_model(c, k).state_dict()
    grams = []
    for s in range(30):
        d = dict(c, proj=dict(c["proj"], proj_seed=c["proj"]["proj_seed"] + s))
        P = phi_fresh(d, st_, x[:4], y[:4])
        grams.append(P @ P.T)
    grams = torch.stack(grams)
    mean, se = grams.mean(0), grams.std(0) / math.sqrt(len(grams))
    bad = (mean - G @ G.T).abs() - 9 * se - 1e-9
    if float(bad.max()) > 0:
        i = int(bad.argmax())
        raise Violation(
            "inner products over 30 seeds average to %.4g (s.e. %.2g), exact "
            "%.4g" % (float(mean.reshape(-1)[i]), float(se.reshape(-1)[i]),
                      float((G @ G.T).reshape(-1)[i])))
    return Result(p > 1, [c["mode"], "seq" if c["seq"] else "flat"])


SUBS = [
    Sub("network-map", net_cases(), check_net, quick=120, shards=4),
    Sub("trajectory", cases(), check, quick=1200, shards=4),
    Sub("projected", cases(proj=True), check, quick=640, shards=4),
    Sub("external", ext_cases(), check_ext, quick=120),
    Sub("projection-map", map_cases(), check_map, quick=48, shards=4),
]
