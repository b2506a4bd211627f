"""P02: layer selection is exactly a slice of the full computation."""
import math

from pv.core import Result, Sub, Violation
from pv.gen import (
    ODD, SEEDS, Net, build_task, close, equal, model_specs, nn, require, set_dtype,
    setup_task, setups, side_loader, st, torch, trainable,
)

PROP = "P02"
RULE = (
    "Search 'utilities': a module with random nested parameter names, shapes "
    "(also scalars) and frozen parameters, a random function of them, argument "
    "position, ordered selection (or a single name). Flattening, the flattened "
    "function (flat or split), the restricted function, their values, "
    "gradients and second derivatives must be index arithmetic on the full "
    "ones, inputs unchanged. Search 'scores': for TracIn, TRAK, explicit "
    "inverse, conjugate gradients, DataInf and EK-FAC reordering a selection or "
    "selecting everything changes nothing, a name equals a one-name list, and "
    "gradient products add up over a partition of the parameters. Non-trivial: "
    "at least three parameters and a proper selection."
)
ASSUMPTIONS = ["Projections are the identity in 'scores' (a random projection "
               "depends on the order of the coordinates)."]


class Tree(nn.Module):
    def __init__(self, shapes, frozen, nest):
        super().__init__()
        g = torch.Generator().manual_seed(5)
        self.inner = nn.Module()
        for i, s in enumerate(shapes):
            p = nn.Parameter(torch.randn(s, generator=g),
                             requires_grad=i not in frozen)
            (self.inner if nest[i] else self).register_parameter("p%d" % i, p)
        self.register_buffer("buf", torch.ones(3))


@st.composite
def util_cases(draw):
    n = draw(st.integers(1, 6))
    shapes = [draw(st.lists(st.integers(1, 3), max_size=3)) for _ in range(n)]
    frozen = draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True))
    if len(frozen) == n:
        frozen = frozen[:-1]
    return {"shapes": shapes, "frozen": frozen,
            "nest": [draw(st.booleans()) for _ in range(n)],
            "pos": draw(st.integers(0, 2)), "seed": draw(SEEDS),
            "perm": list(draw(st.permutations(range(n)))),
            "k": draw(st.integers(1, n)), "as_str": draw(st.booleans()),
            "kw": draw(st.booleans()), "f64": True}


def util_check(c):
    from dattri.func.utils import flatten_func, flatten_params, partial_param

    set_dtype(c)
    m = Tree(c["shapes"], c["frozen"], c["nest"])
    g = torch.Generator().manual_seed(c["seed"])
    named = {n: p for n, p in m.named_parameters() if p.requires_grad}
    names = list(named)
    vals = {n: torch.randn(p.shape, generator=g) for n, p in named.items()}
    flat = torch.cat([v.reshape(-1) for v in vals.values()])
    keep = {n: v.clone() for n, v in vals.items()}
    got = flatten_params(vals)
    equal(got, flat, "flattened parameters")
    got.mul_(2)
    for n in names:
        equal(vals[n], keep[n], "flattening aliases or changes " + n)
    rng = {n: torch.randn(v.shape, generator=g) for n, v in vals.items()}
    mix = {n: float(torch.randn((), generator=g)) for n in names}
    seen = []

    def body(params, a, b, scale=1.0):
        seen.append({n: tuple(t.shape) for n, t in params.items()})
        s = sum((torch.sin(params[n]) * rng[n]).sum() * mix[n]
                for n in names if n in params)
        q = sum((params[n] ** 2).sum() for n in names if n in params)
        return scale * (s * q * 0.1 + a["u"].sum() * s + b)

    pos = c["pos"]

    def f(*args, **kw):
        args = list(args)
        params = args.pop(pos)
        return body(params, args[0], args[1], **kw)

    def put(p):
        rest = [{"u": torch.full((2,), 0.3)}, 0.7]
        rest.insert(pos, p)
        return tuple(rest)

    kw = {"scale": 1.7} if c["kw"] else {}
    ff = flatten_func(m, pos)(f)
    v0 = flat.clone()
    val = ff(*put(flat), **kw)
    equal(flat, v0, "the flat parameters")
    want = f(*put(vals), **kw)
    close(val, want, "flattened function", rtol=1e-12)
    require(seen[0] == {n: tuple(v.shape) for n, v in vals.items()} and
            list(seen[0]) == names, "the function received %s" % (seen[0],))
    tup = tuple(v.reshape(-1).clone() for v in vals.values())
    close(ff(*put(tup), **kw), want, "function of split parameters",
          rtol=1e-12)

    def gradient(fun, p):
        p = p.clone().requires_grad_(True)
        return torch.autograd.grad(fun(*put(p), **kw), p)[0]

    leafs = {n: v.clone().requires_grad_(True) for n, v in vals.items()}
    full_g = torch.cat([t.reshape(-1) for t in torch.autograd.grad(
        f(*put(leafs), **kw), list(leafs.values()))])
    close(gradient(ff, flat), full_g, "gradient of the flattened function",
          rtol=1e-12)
    bt = torch.stack([flat, flat * 0.5, -flat])
    vm = torch.func.vmap(lambda p: ff(*put(p), **kw))(bt)
    close(vm, torch.stack([ff(*put(b), **kw) for b in bt]),
          "batched flattened function", rtol=1e-12)
    # restriction
    sel = [names[i] for i in c["perm"] if i < len(names)][:c["k"]]
    off, idx = {}, []
    i = 0
    for n in names:
        off[n] = (i, i + vals[n].numel())
        i += vals[n].numel()
    for n in sel:
        idx += list(range(*off[n]))
    arg = sel[0] if len(sel) == 1 and c["as_str"] else list(sel)
    fr = partial_param(vals, arg, pos)(ff)
    new = torch.randn(len(idx), generator=g)
    merged = flat.clone()
    merged[idx] = new
    close(fr(*put(new), **kw), ff(*put(merged), **kw), "restricted function",
          rtol=1e-12)
    close(fr(*put(flat[idx]), **kw), want, "restricted function at the full "
          "parameters", rtol=1e-12)
    for n in names:
        equal(vals[n], keep[n], "restricted call changed the full parameter "
              + n)
    require(list(vals) == names, "order of the full parameters changed")
    close(gradient(fr, new), gradient(ff, merged)[idx],
          "gradient of the restricted function", rtol=1e-12)
    if len(flat) <= 12:
        H = torch.autograd.functional.hessian(lambda p: ff(*put(p), **kw),
                                              merged)
        Hr = torch.autograd.functional.hessian(lambda p: fr(*put(p), **kw),
                                               new)
        close(Hr, H[idx][:, idx], "Hessian of the restricted function",
              rtol=1e-10)
    if isinstance(arg, list):
        require(arg == sel, "the selection was changed")
    return Result(len(names) >= 3 and 0 < len(sel) < len(names),
                  ["pos=%d" % pos, "frozen=%d" % len(c["frozen"])])


METHODS = ["tracin", "trak", "explicit", "cg", "datainf", "ekfac"]


@st.composite
def score_cases(draw):
    c = draw(setups(max_ckpt=2, max_train=4, max_test=3, layers=False,
                    losses=["ce", "sq"], f32=False, kinds=("list", "dict"), odd=ODD))
    c["method"] = draw(st.sampled_from(METHODS))
    if c["method"] == "ekfac":
        c["spec"] = dict(c["spec"], tie=False, twice=False)
        c["kind"] = "list"  # dict batches are documented as unsupported
        c["n_ckpt"] = 1
    names = trainable(Net(c["spec"]))
    c["perm"] = list(draw(st.permutations(range(len(names)))))
    c["k"] = draw(st.integers(1, len(names)))
    c["cut"] = draw(st.integers(0, c["k"]))
    return c


def scores(c, layers):
    from dattri.algorithm.influence_function import (
        IFAttributorCG, IFAttributorDataInf, IFAttributorEKFAC,
        IFAttributorExplicit,
    )
    from dattri.algorithm.tracin import TracInAttributor
    from dattri.algorithm.trak import TRAKAttributor
    from dattri.params.projection import (
        TracInProjectionParams, TRAKProjectionParams,
    )

    cc = dict(c, layers=layers)
    task, _ = setup_task(cc)
    tr, te = side_loader(c, "tr"), side_loader(c, "te")
    m = c["method"]
    if m == "tracin":
        a = TracInAttributor(
            task=task, weight_list=[0.5] * c["n_ckpt"], normalized_grad=False,
            layer_name=layers, proj_params=TracInProjectionParams(
                proj_type="identity"))
    elif m == "trak":
        a = TRAKAttributor(
            task=task, layer_name=layers, regularization=1.0,
            correct_probability_func=make_prob(cc, task),
            proj_params=TRAKProjectionParams(proj_type="identity"))
        return a.attribute(te, train_dataloader=tr)
    elif m == "explicit":
        a = IFAttributorExplicit(task=task, layer_name=layers,
                                 regularization=3.0)
        a.cache(tr)
    elif m == "cg":
        a = IFAttributorCG(task=task, layer_name=layers, regularization=10.0,
                           max_iter=40, tol=1e-10)
        a.cache(tr)
    elif m == "datainf":
        a = IFAttributorDataInf(task=task, layer_name=layers,
                                regularization=1.0)
        a.cache(tr)
    else:
        mods = None if layers is None else []
        if mods is not None:
            for n in [layers] if isinstance(layers, str) else layers:
                md = n.rsplit(".", 1)[0]
                if md not in mods:
                    mods.append(md)
            if isinstance(layers, str):
                mods = mods[0]
        a = IFAttributorEKFAC(task=task, module_name=mods, damping=0.5)
        a.cache(tr)
    return a.attribute(tr, te)


def make_prob(c, task):
    from pv.gen import make_loss
    f = make_loss(task.get_model(), "ce", c["spec"]["d"], c["kind"])
    return lambda params, data: torch.exp(-f(params, data)).reshape(1)


def score_check(c):
    set_dtype(c)
    names = trainable(Net(c["spec"]))
    order = [names[i] for i in c["perm"]]
    sel = order[:c["k"]]
    m = c["method"]
    if m == "ekfac":
        if c["spec"]["frozen"]:
            return Result(False, ["frozen"])
    if m == "datainf":
        # layers are groups of neighbouring names
        sel = sorted(sel, key=lambda n: n.rsplit(".", 1)[0])
    rtol = 1e-5 if m in ("cg", "ekfac") else 1e-8
    base = scores(c, sel)
    sc = max(float(base.abs().max()), 1e-3)
    rev = sel[::-1]
    close(scores(c, rev), base, m + ": reordered selection", rtol=rtol,
          scale=sc)
    if len(sel) == len(names):
        close(scores(c, None), base, m + ": all names against no selection",
              rtol=rtol, scale=sc)
    if len(sel) == 1:
        close(scores(c, sel[0]), base, m + ": name against one-name list",
              rtol=1e-12, scale=sc)
    if m == "tracin" and 0 < c["cut"] < len(sel):
        close(scores(c, sel[:c["cut"]]) + scores(c, sel[c["cut"]:]), base,
              "sum over a partition of the selection", rtol=1e-9, scale=sc)
    if m in ("datainf", "ekfac"):
        mods = []
        for n in sel:
            md = n.rsplit(".", 1)[0]
            if md not in mods:
                mods.append(md)
        if len(mods) > 1:
            parts = [scores(c, [n for n in sel if n.rsplit(".", 1)[0] == md])
                     for md in mods]
            close(sum(parts), base, m + ": sum over the layers", rtol=rtol,
                  scale=sc)
    return Result(len(sel) >= 2, ["method=" + m])


SUBS = [
    Sub("utilities", util_cases(), util_check, quick=3200, thorough=60000,
        shards=4),
    Sub("scores", score_cases(), score_check, quick=800, thorough=16000,
        shards=4),
]
