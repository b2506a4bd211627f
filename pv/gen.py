"""Shared generators, model/data builders and independent reference formulas.

Nothing here calls the code under test. Reference gradients are computed with
plain ``torch.autograd`` one sample at a time, in float64, on a private model.
"""

from __future__ import annotations

import math

from pv.core import Violation, load_hypothesis

load_hypothesis()
import torch  # noqa: E402
import torch.nn.functional as F  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from torch import nn  # noqa: E402
from torch.utils.data import DataLoader, Dataset, TensorDataset  # noqa: E402, F401

SEEDS = st.integers(0, 2**16)


# ----------------------------------------------------------------- models
class Net(nn.Module):
    """Small network with nested names, optional frozen layer and buffer."""

    def __init__(self, spec):
        super().__init__()
        dims = [spec["d"], *spec["hidden"], spec["c"]]
        self.nl = len(dims) - 1
        act = spec.get("act", "tanh")
        self.act = {"tanh": torch.tanh, "softplus": F.softplus,
                    "sigmoid": torch.sigmoid}[act]
        body = []
        for i in range(self.nl):
            body.append(nn.Linear(dims[i], dims[i + 1], bias=spec["bias"][i]))
        self.body = nn.ModuleList(body[:-1])
        self.head = body[-1]
        # checkpoints are evaluated in eval mode, where dropout does nothing
        self.drop = nn.Dropout(0.5) if spec.get("drop") else None
        self.use_buffer = bool(spec.get("buffer"))
        if self.use_buffer:
            self.register_buffer("gain", torch.ones(1))
        for i in spec.get("frozen", []):
            for p in body[i].parameters():
                p.requires_grad_(False)
        # "out": layer outputs are scaled, "in": they are scaled in place
        self.post = spec.get("post")
        # the first layer is applied twice
        self.twice = bool(spec.get("twice"))
        if spec.get("tie"):
            self.head.weight = self.body[0].weight
        # a layer that is not used ("idle") or whose output is not ("side")
        self.aux = spec.get("aux")
        if self.aux:
            self.extra = nn.Linear(spec["d"], 2, bias=spec["bias"][0])

    def scaled(self, x, f):
        if self.post == "in":
            return x.mul_(f)
        return x * f if self.post == "out" else x

    def features(self, x):
        """The input of the last layer."""
        if self.use_buffer:
            x = x * self.gain
        if self.aux == "side":
            self.extra(x)
        for i, layer in enumerate(self.body):
            for _ in range(2 if self.twice and i == 0 else 1):
                x = self.act(self.scaled(layer(x), 0.8))
            if self.drop is not None:
                x = self.drop(x)
        return x

    def forward(self, x):
        return self.scaled(self.head(self.features(x)), 1.25)


@st.composite
def model_specs(draw, max_hidden=1, max_d=4, max_c=3, frozen=True, buffer=True,
                min_c=2, max_h=4, force_bias=False, odd=()):
    nh = draw(st.integers(0, max_hidden))
    spec = {
        "d": draw(st.integers(1, max_d)),
        "c": draw(st.integers(min_c, max_c)),
        "hidden": [draw(st.integers(1, max_h)) for _ in range(nh)],
        "act": draw(st.sampled_from(["tanh", "softplus", "sigmoid"])),
        "seed": draw(SEEDS),
    }
    spec["bias"] = [force_bias or draw(st.booleans()) for _ in range(nh + 1)]
    spec["buffer"] = bool(buffer and draw(st.booleans()))
    spec["drop"] = draw(st.integers(0, 2)) == 0
    spec["frozen"] = []
    if frozen and nh > 0 and draw(st.integers(0, 3)) == 0:
        spec["frozen"] = [draw(st.integers(0, nh))]
    kind = draw(st.sampled_from([None] * 7 + sorted(odd)))
    if kind == "post":
        spec["post"] = draw(st.sampled_from(["in", "in", "out"]))
    elif kind == "aux":
        spec["aux"] = draw(st.sampled_from(["idle", "side"]))
    elif kind == "twice" and nh:
        spec["twice"], spec["hidden"][0] = True, spec["d"]
    elif kind == "tie" and nh and not spec["frozen"]:
        # all layers are square
        spec["c"] = spec["d"] = max(spec["d"], min_c)
        spec["hidden"] = [spec["d"]] * nh
        spec["tie"] = True
    return spec


ODD = ("post", "aux", "twice", "tie")


def make_state(spec, k):
    """k-th checkpoint (a state dict) of a model spec, as plain tensors."""
    g = torch.Generator().manual_seed(spec["seed"] * 131 + k)
    m = Net(spec)
    sd = {}
    for name, t in m.state_dict().items():
        if name == "gain":
            sd[name] = 0.5 + torch.rand(t.shape, generator=g,
                                        dtype=torch.float64)
        else:
            fan = t.shape[-1] if t.dim() > 1 else 2
            sd[name] = torch.randn(t.shape, generator=g, dtype=torch.float64) \
                / math.sqrt(fan) * spec.get("wscale", 1.0)
    if spec.get("tie"):
        sd["head.weight"] = sd["body.0.weight"].clone()
    return sd


def make_states(spec, n, dtype=None):
    dtype = dtype or torch.get_default_dtype()
    return [{k: v.to(dtype) for k, v in make_state(spec, i).items()}
            for i in range(n)]


def ref_model(spec, k):
    """Float64 reference model holding checkpoint k."""
    if spec.get("post"):
        spec = dict(spec, post="out")
    m = Net(spec).double()
    m.load_state_dict(make_state(spec, k))
    m.eval()
    return m


def trainable(model):
    return [n for n, p in model.named_parameters() if p.requires_grad]


# ------------------------------------------------------------------- data
def make_xy(n, d, c, seed):
    """Float64 inputs, class labels."""
    g = torch.Generator().manual_seed(seed * 7 + 3)
    x = torch.randn(n, d, generator=g, dtype=torch.float64)
    y = torch.randint(0, c, (n,), generator=g)
    return x, y


class TupleData(Dataset):
    def __init__(self, x, y, kind):
        self.x, self.y, self.kind = x, y, kind

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        if self.kind == "dict":
            return {"x_in": self.x[i], "lab": self.y[i]}
        return self.x[i], self.y[i]


def _tuple_collate(items):
    return tuple(torch.stack([it[j] for it in items])
                 for j in range(len(items[0])))


class FixedSampler(torch.utils.data.Sampler):
    def __init__(self, idx):
        self.idx = list(idx)
        self.indices = self.idx

    def __iter__(self):
        return iter(self.idx)

    def __len__(self):
        return len(self.idx)


def loader(x, y, batch, kind="list", idx=None, dtype=None):
    dtype = dtype or torch.get_default_dtype()
    kw = {}
    if idx is not None:
        kw["sampler"] = FixedSampler(idx)
    if kind == "tuple":
        kw["collate_fn"] = _tuple_collate
    return DataLoader(TupleData(x.to(dtype), y, kind), batch_size=batch, **kw)


# ----------------------------------------------------------------- losses
def loss_scale(name):
    """The factor of a scaled loss such as "ce@1e-06"."""
    return float(name.partition("@")[2] or 1)


def loss_value(name, out, y):
    if "@" in name:
        return loss_scale(name) * loss_value(name.partition("@")[0], out, y)
    if name == "ce":
        return F.cross_entropy(out, y)
    if name == "sq":
        t = (y[:, None] == torch.arange(out.shape[-1])).to(out.dtype)
        return 0.5 * ((out - t) ** 2).sum(-1).mean()
    if name == "logit":
        return out.gather(1, y[:, None]).mean()
    if name == "margin":
        lp = F.log_softmax(out, -1)
        a = lp.gather(1, y[:, None])[:, 0]
        b = torch.log1p(-torch.exp(a).clamp(max=1 - 1e-6))
        return (a - b).mean()
    if name == "hole":
        # the gradient of the root is undefined for samples of class 0
        flag = (y != 0).to(out.dtype)
        return F.cross_entropy(out, y) + torch.sqrt(out[:, 0] ** 2 * flag).mean()
    raise KeyError(name)


def make_loss(model, name, d, kind="list"):
    """A loss in the functional style the library documents."""

    def f(params, data):
        if kind == "dict":
            x, y = data["x_in"], data["lab"]
        else:
            x, y = data
        out = torch.func.functional_call(model, params, (x.reshape(-1, d),))
        return loss_value(name, out, y.reshape(-1).long())

    return f


# ------------------------------------------------------- reference formulas
def ref_grads(model64, loss_name, x, y, names=None):
    """(n, p) per-sample gradients w.r.t. the named parameters, float64."""
    params = dict(model64.named_parameters())
    if names is None:
        names = trainable(model64)
    ps = [params[n] for n in names]
    rows = []
    for i in range(len(x)):
        val = loss_value(loss_name, model64(x[i:i + 1].double()), y[i:i + 1])
        gs = torch.autograd.grad(val, ps, allow_unused=True)
        rows.append(torch.cat([
            (torch.zeros_like(p) if g is None else g).reshape(-1)
            for p, g in zip(ps, gs)]))
    if not rows:
        return torch.zeros(0, sum(p.numel() for p in ps), dtype=torch.float64)
    # undefined entries count as zero
    return torch.nan_to_num(torch.stack(rows).detach(), nan=0.0)


def flat_params(model64, names=None):
    params = dict(model64.named_parameters())
    names = names or trainable(model64)
    return torch.cat([params[n].detach().reshape(-1) for n in names])


def ref_scalar_fn(spec, k, loss_name, x, y, names=None):
    """theta (flat over names) -> mean loss over (x, y), float64, closure."""
    m = ref_model(spec, k)
    names = names or trainable(m)
    base = {n: p.detach() for n, p in m.named_parameters()}
    shapes = [base[n].shape for n in names]

    def fn(theta):
        d = dict(base)
        i = 0
        for n, s in zip(names, shapes):
            sz = math.prod(s)
            d[n] = theta[i:i + sz].reshape(s)
            i += sz
        out = torch.func.functional_call(m, d, (x.double(),))
        return loss_value(loss_name, out, y)

    return fn, flat_params(m, names)


def ref_hessian(spec, k, loss_name, x, y, names=None):
    fn, th = ref_scalar_fn(spec, k, loss_name, x, y, names)
    return torch.autograd.functional.hessian(fn, th).detach()


# ---------------------------------------------------------------- compare
def close(got, want, what, rtol=None, atol=None, scale=None):
    """Raise Violation unless got matches want (shape, finiteness, values)."""
    if not torch.is_tensor(got):
        raise Violation("%s: not a tensor: %r" % (what, type(got)))
    if tuple(got.shape) != tuple(want.shape):
        raise Violation("%s: shape %s, expected %s" % (
            what, tuple(got.shape), tuple(want.shape)))
    if rtol is None:
        rtol = 1e-7 if torch.get_default_dtype() == torch.float64 else 2e-3
    g, w = got.detach().double(), want.detach().double()
    if g.numel() == 0:
        return
    if not torch.isfinite(w).all():
        raise RuntimeError("reference is not finite: " + what)
    if not torch.isfinite(g).all():
        raise Violation("%s: non-finite values" % what)
    s = scale if scale is not None else float(w.abs().max())
    tol = rtol * max(s, 1e-30) + (atol if atol is not None else rtol * 1e-3)
    err = float((g - w).abs().max())
    if err > tol:
        i = int((g - w).abs().argmax())
        raise Violation(
            "%s: max error %.3g (tolerance %.3g); e.g. got %.8g expected %.8g"
            % (what, err, tol, float(g.reshape(-1)[i]), float(w.reshape(-1)[i])))


def equal(got, want, what):
    if tuple(got.shape) != tuple(want.shape):
        raise Violation("%s: shape %s, expected %s" % (
            what, tuple(got.shape), tuple(want.shape)))
    if not torch.equal(got, want):
        raise Violation("%s: values differ" % what)


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def set_dtype(case):
    torch.set_default_dtype(torch.float64 if case.get("f64", True)
                            else torch.float32)


def build_task(spec, n_ckpt, loss="ce", target=None, kind="list",
               single_as_list=True):
    """An AttributionTask over generated checkpoints, plus its model."""
    from dattri.task import AttributionTask

    model = Net(spec)
    states = make_states(spec, n_ckpt)
    model.to(torch.get_default_dtype())
    ck = states if (n_ckpt > 1 or single_as_list) else states[0]
    task = AttributionTask(
        loss_func=make_loss(model, loss, spec["d"], kind),
        model=model,
        checkpoints=ck,
        target_func=None if target is None else make_loss(
            model, target, spec["d"], kind),
    )
    return task, model


def subset_names(draw, spec):
    """A non-empty ordered selection of trainable parameter names."""
    names = trainable(Net(spec))
    perm = draw(st.permutations(names))
    k = draw(st.integers(1, len(names)))
    return list(perm[:k])


# ------------------------------------------------ attribution set-ups
LOSSES = ["ce", "sq", "logit", "margin"]


@st.composite
def setups(draw, max_ckpt=4, max_train=6, max_test=4, kinds=("list", "tuple"),
           losses=LOSSES, max_hidden=1, layers=True, samplers=True, frozen=True,
           separate_target=True, f32=True, min_train=1, min_test=1,
           scales=(1,), big=False, **kw):
    """A task with training and test loaders, now and then larger ones."""
    spec = draw(model_specs(max_hidden=max_hidden, frozen=frozen, **kw))
    if not trainable(Net(spec)):
        spec["frozen"] = []
    c = {"spec": spec, "n_ckpt": min(max_ckpt, draw(
        st.sampled_from([1, 1, 2, 2, 3, 4]))),
         "loss": draw(st.sampled_from(losses)),
         "target": draw(st.sampled_from([None, *losses]))
         if separate_target else None,
         "kind": draw(st.sampled_from(list(kinds))),
         "f64": (not f32) or draw(st.integers(0, 4)) > 0}
    for key in ("loss", "target"):
        scale = draw(st.sampled_from(scales)) if len(scales) > 1 else 1
        if scale != 1 and c[key] is not None:
            c[key] += "@%g" % scale
    if big and draw(st.integers(0, 15)) == 9:
        max_train, min_train = draw(st.sampled_from([
            (20, 15), (40, 31), (70, 63)])) if draw(st.booleans()) else (
            max_train, min_train)
        max_test, min_test = draw(st.sampled_from([
            (20, 15), (40, 31), (70, 63)])) if draw(st.booleans()) else (
            max_test, min_test)
        if draw(st.booleans()) and max_ckpt > 1:
            c["n_ckpt"] = draw(st.integers(5, 11))
    for side, mx, mn in (("tr", max_train, min_train),
                         ("te", max_test, min_test)):
        n = draw(st.integers(mn, mx))
        c[side] = {"n": n, "seed": draw(st.integers(0, 500)),
                   "bs": draw(st.integers(1, mx + 1)), "idx": None}
        if samplers and draw(st.integers(0, 3)) == 0:
            c[side]["idx"] = draw(st.lists(
                st.integers(0, n - 1), min_size=mn, max_size=mx))
    names = trainable(Net(spec))
    c["layers"] = None
    if layers and draw(st.booleans()):
        perm = draw(st.permutations(names))
        c["layers"] = list(perm[:draw(st.integers(1, len(names)))])
        if len(c["layers"]) == 1 and draw(st.booleans()):
            c["layers"] = c["layers"][0]
    return c


def layer_list(c):
    if c["layers"] is None:
        return None
    return [c["layers"]] if isinstance(c["layers"], str) else c["layers"]


def side_xy(c, side):
    """Samples a loader delivers, in order (float64)."""
    s = c[side]
    x, y = make_xy(s["n"], c["spec"]["d"], c["spec"]["c"], s["seed"])
    if s["idx"] is not None:
        x, y = x[s["idx"]], y[s["idx"]]
    return x, y


def side_loader(c, side, bs=None):
    s = c[side]
    x, y = make_xy(s["n"], c["spec"]["d"], c["spec"]["c"], s["seed"])
    return loader(x, y, bs or s["bs"], c["kind"], s["idx"])


def setup_task(c):
    return build_task(c["spec"], c["n_ckpt"], c["loss"], c["target"],
                      c["kind"], single_as_list=c["n_ckpt"] > 1)


def setup_ref_grads(c, k):
    """Reference train (loss) and test (target) gradients, checkpoint k."""
    m = ref_model(c["spec"], k)
    names = layer_list(c)
    g = ref_grads(m, c["loss"], *side_xy(c, "tr"), names=names)
    t = ref_grads(m, c["target"] or c["loss"], *side_xy(c, "te"), names=names)
    return g, t


def setup_nontrivial(c):
    return c["tr"]["n"] >= 2 and len(side_xy(c, "tr")[0]) >= 2 and \
        c["tr"]["bs"] < len(side_xy(c, "tr")[0])


def projection_matrix(p, proj, ensemble_id, dtype=None):
    """The (p, q) matrix of the library's own projection (see P15)."""
    from dattri.func.projection import random_project
    from dattri.params.projection import RandomProjectionParams

    dtype = dtype or torch.get_default_dtype()
    eye = torch.eye(p, dtype=dtype)
    f = random_project(eye, RandomProjectionParams(
        feature_batch_size=p, device="cpu", **proj))
    return f(eye, ensemble_id=ensemble_id).double()


@st.composite
def proj_params(draw, key="proj_dim", max_dim=8, types=None, big=True):
    types = types or ["identity", "normal", "rademacher", "random_mask"]
    d = {key: draw(st.integers(1, max_dim)),
         "proj_seed": draw(st.integers(0, 30)),
         "proj_type": draw(st.sampled_from(types)),
         "proj_max_batch_size": draw(st.sampled_from([8, 32]))}
    if big and draw(st.integers(0, 5)) == 0:
        d[key] = draw(st.sampled_from([100, 101, 150, 250]))
    return d
