"""P24: model utilities change only what they say they change."""
from pv.core import Result, Sub
from pv.gen import DataLoader, TensorDataset, require, st, torch

nn = torch.nn
PROP = "P24"
RULE = (
    "Cases are random trees of modules (nested sequences with linear, "
    "activation, normalisation and dropout layers of several kinds, names "
    "with common prefixes) with a selection of dropout layers by name, applied "
    "once or repeatedly; or models with a final linear layer called once per "
    "forward pass, and a loader of any batch size and order. Every module's "
    "mode, drop rate and parameters are compared before and after; layer "
    "inputs and outputs are compared with the model computed in parts. "
    "Non-trivial: at least two dropout layers, or at least two batches."
)
ASSUMPTIONS = [
    "Dropout layers are the torch.nn classes whose name starts with Dropout.",
    "A name selects the layer of that name and layers below it.",
]
NAMES = ["drop", "drop1", "drop10", "d", "layer", "layer1", "x"]


@st.composite
def trees(draw, depth=2):
    kids = []
    names = draw(st.permutations(NAMES))[:draw(st.integers(1, 5))]
    for nm in names:
        kind = draw(st.sampled_from(
            ["dropout", "dropout", "linear", "relu", "bn", "tree", "dropout1d"]))
        if kind == "tree" and depth > 0:
            kids.append([nm, "tree", draw(trees(depth=depth - 1))])
        elif kind == "tree":
            kids.append([nm, "dropout", 0.5])
        elif kind.startswith("dropout"):
            kids.append([nm, kind, draw(st.sampled_from([0.0, 0.25, 0.5]))])
        else:
            kids.append([nm, kind, None])
    return kids


def build(tree):
    from collections import OrderedDict
    out = OrderedDict()
    for nm, kind, arg in tree:
        out[nm] = {"tree": lambda: build(arg), "linear": lambda: nn.Linear(3, 3),
                   "relu": nn.ReLU, "bn": lambda: nn.BatchNorm1d(3),
                   "dropout": lambda: nn.Dropout(arg),
                   "dropout1d": lambda: nn.Dropout1d(arg)}[kind]()
    return nn.Sequential(out)


def drops(m):
    return [n for n, x in m.named_modules() if isinstance(
        x, (nn.Dropout, nn.Dropout1d))]


@st.composite
def drop_cases(draw):
    c = {"tree": draw(trees()), "calls": [], "training": draw(st.booleans())}
    names = drops(build(c["tree"]))
    paths = [n for n, _ in build(c["tree"]).named_modules() if n]
    for _ in range(draw(st.integers(1, 3))):
        sel = None
        how = draw(st.integers(0, 5))
        if how == 0:
            sel = []
        elif how < 4 and names:
            sel = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3))
        elif how == 4:
            sel = draw(st.lists(st.sampled_from(paths), min_size=1, max_size=2))
        c["calls"].append([sel, draw(st.sampled_from([0.1, 0.2, 0.5, None]))])
    return c


def below(name, layer):
    """The layer, or a layer below a module of that (relative) path."""
    n, q = name.split("."), layer.split(".")
    return any(n[i:i + len(q)] == q for i in range(len(n) - len(q) + 1))


def drop_check(c):
    from dattri.model_util.dropout import activate_dropout
    model = build(c["tree"])
    model.train(c["training"])
    state = {k: v.clone() for k, v in model.state_dict().items()}
    names = drops(model)
    rate = {n: x.p for n, x in model.named_modules() if n in names}
    grads = {n: p.requires_grad for n, p in model.named_parameters()}
    tags = set()
    for sel, p in c["calls"]:
        every = dict(model.named_modules())
        others = [n for n in every for s in sel or () if below(n, s)
                  and n not in names]
        kw = {} if p is None else {"dropout_prob": p}
        if sel is not None:
            kw["layer_positions"] = list(sel)
        if others:
            tags.add("refused")
            try:
                activate_dropout(model, **kw)
            except ValueError:
                # what a refused call activates is not specified
                model = build(c["tree"])
                state = {k: v.clone() for k, v in model.state_dict().items()}
                rate = {n: x.p for n, x in model.named_modules() if n in names}
                continue
            require(False, "%s includes layers that are not dropout layers and "
                    "is accepted" % sel)
        out = activate_dropout(model, **kw)
        require(out is model, "another model is returned")
        on = {n for n in names if not sel or any(below(n, s) for s in sel)}
        for n in on:
            rate[n] = 0.1 if p is None else p
        for n, x in model.named_modules():
            require(x.training == (n in on), "after activating %s, module %r is "
                    "in %s mode" % (sel, n,
                                    "training" if x.training else "eval"))
            if n in names:
                require(x.p == rate[n], "after activating %s, dropout %r has "
                        "rate %g, expected %g" % (sel, n, x.p, rate[n]))
        now = model.state_dict()
        require(set(now) == set(state) and all(
            torch.equal(now[k], v) for k, v in state.items()),
            "parameters or buffers changed")
        require(grads == {n: q.requires_grad
                          for n, q in model.named_parameters()},
                "requires_grad changed")
        tags.add("all" if not sel else "some")
    return Result(len(names) > 1 and bool(tags & {"all", "some"}), sorted(tags))


# ------------------------------------------------------------ layer hook
class Two(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.body = nn.Sequential(nn.Linear(c["d"], c["h"]), nn.Tanh())
        self.final = nn.Linear(c["h"], c["k"], bias=c["bias"])
        self.other = nn.Linear(c["k"], c["k"])
        self.post = c["post"]
        self.inplace = c["inplace"]
        self.fail_at = None
        self.seen = 0

    def forward(self, x):
        self.seen += 1
        if self.seen == self.fail_at:
            self.final(self.body(x))
            raise RuntimeError("planned failure")
        y = self.final(self.body(x))
        if self.inplace:
            # what follows may change the output in place
            y.mul_(-2.0)
        return self.other(y) if self.post else y


@st.composite
def hook_cases(draw):
    n = draw(st.one_of(*[st.integers(1, 14)] * 9, st.integers(15, 150)))
    return {"n": n, "d": draw(st.integers(1, 3)), "h": draw(st.integers(1, 4)),
            "k": draw(st.integers(1, 3)), "bias": draw(st.booleans()),
            "post": draw(st.booleans()),
            "inplace": draw(st.integers(0, 3)) == 0, "bs": draw(st.one_of(*[st.integers(1, 6)] * 5,
                                 st.integers(7, 80))),
            "order": draw(st.permutations(range(n))),
            "layer": draw(st.sampled_from(["final", "final", "body", "other"])),
            "seed": draw(st.integers(0, 999)), "train": draw(st.booleans()),
            "times": draw(st.integers(1, 3)),
            "fail": draw(st.one_of(st.none(), st.none(), st.integers(1, 3)))}


def hook_check(c):
    from dattri.benchmark.utils import SubsetSampler
    from dattri.model_util.hook import get_final_layer_io
    torch.manual_seed(c["seed"])
    if c["layer"] == "other":
        c = {**c, "post": True}
    model = Two(c)
    model.train(c["train"])
    x = torch.randn(c["n"], c["d"])
    loader = DataLoader(TensorDataset(x, torch.zeros(c["n"])),
                        batch_size=c["bs"], sampler=SubsetSampler(c["order"]))
    state = {k: v.clone() for k, v in model.state_dict().items()}
    with torch.no_grad():
        x = x[c["order"]]
        b = model.body(x)
        f = model.final(b)
        g = -2 * f if c["inplace"] else f
        want = {"body": (x, b), "final": (b, f), "other": (
            g, model.other(g))}[
            c["layer"]]
    if c["fail"] and c["fail"] <= len(loader):
        model.fail_at = c["fail"]
        try:
            get_final_layer_io(model, c["layer"], loader)
            require(False, "a failing model was not reported")
        except RuntimeError as e:
            require("planned" in str(e), "another error: %s" % e)
        model.fail_at = None
        require(not any(m._forward_hooks for m in model.modules()),
                "hooks stay on the model after a failure")
    for _ in range(c["times"]):
        feat, out = get_final_layer_io(model, c["layer"], loader)
        for name, g, w in (("inputs", feat, want[0]), ("outputs", out, want[1])):
            require(tuple(g.shape) == tuple(w.shape), "layer %s have shape %s, "
                    "expected %s" % (name, tuple(g.shape), tuple(w.shape)))
            require(torch.allclose(g, w, atol=1e-6), "layer %s differ from what "
                    "the layer saw" % name)
            require(not g.requires_grad, "layer %s require gradients" % name)
        require(not any(m._forward_hooks for m in model.modules()),
                "hooks stay on the model")
    require(all(torch.equal(model.state_dict()[k], v) for k, v in state.items()),
            "parameters changed")
    require(model.training == c["train"], "the training mode changed")
    require(all(p.grad is None for p in model.parameters()), "gradients appear")
    return Result(c["n"] > c["bs"], (c["layer"],))


SUBS = [
    Sub("dropout", drop_cases(), drop_check, 3200, 20000, shards=4),
    Sub("layer", hook_cases(), hook_check, 2400, 15000, shards=4),
]
