"""P12: Hessian-vector products equal H v, in both modes, fixed x or not."""
from pv.core import Result, Sub, Violation
from pv.fns import Fn, fn_specs
from pv.gen import close, equal, require, set_dtype, st, torch
from pv.gen import ODD, model_specs, make_xy, ref_hessian, Net, make_states, trainable
from pv.gen import make_loss

PROP = "P12"
RULE = (
    "A case is a random smooth function of 1-3 arguments (vectors, matrices, "
    "nested tuples/dicts for the arguments not differentiated), the "
    "differentiated argument, mode, regularisation, several points and vectors "
    "(zero, unit, random, one wrapped by vmap), or the loss of a random network "
    "in flattened parameters. Every product must equal (H + reg I) v with H "
    "from double autograd, be linear and symmetric in v and leave its inputs "
    "unchanged. Non-trivial: dimension >= 2 and more than one argument."
)


@st.composite
def cases(draw):
    return {"fn": draw(fn_specs(negative=True, big=True)),
            "mode": draw(st.sampled_from(["rev-rev", "rev-fwd"])),
            "reg": draw(st.sampled_from([0.0, 0.0, 0.3, 5.0, -1.0])),
            "fixed": draw(st.booleans()),
            "vseed": draw(st.integers(0, 99)),
            "steps": draw(st.lists(st.tuples(
                st.integers(0, 2), st.sampled_from(
                    ["rand", "zero", "unit", "big", "vmap", "again"])),
                min_size=1, max_size=5)),
            "f64": draw(st.integers(0, 4)) > 0}


def check(c):
    from dattri.func.hessian import IHVPUsageError, hvp, hvp_at_x

    set_dtype(c)
    fn = Fn(c["fn"])
    a = c["fn"]["argnum"]
    p = c["fn"]["dims"][a]
    g = torch.Generator().manual_seed(c["vseed"])
    pts = [fn.point] + [[x + torch.randn(x.shape, generator=g) * 0.5
                         for x in fn.point] for _ in range(2)]
    general = hvp(fn, argnums=a, mode=c["mode"], regularization=c["reg"])
    fixed = {}
    seen = []
    mine = None
    for k, kind in c["steps"]:
        H = fn.hess(pts[k]) + c["reg"] * torch.eye(p)
        v = torch.randn(p, generator=g)
        if kind == "zero":
            v = torch.zeros(p)
        elif kind == "unit":
            v = torch.eye(p)[c["vseed"] % p].clone()
        elif kind == "big":
            v = v * 1e4
        elif kind == "again" and mine is not None:
            # the vector of an earlier call, updated in place (power iteration)
            v = mine.mul_(-0.5).add_(v)
        mine = v
        args = fn.args(pts[k])
        if c["fixed"]:
            if k not in fixed:
                fixed[k] = hvp_at_x(fn, x=args, argnums=a, mode=c["mode"],
                                    regularization=c["reg"])
            f = fixed[k]
        else:
            f = lambda u, args=args: general(args, u)  # noqa: E731
        v0 = v.clone()
        what = "%s %s, point %d, %s vector" % (
            "fixed" if c["fixed"] else "free", c["mode"], k, kind)
        if kind == "vmap":
            vs = torch.randn(3, p, generator=g)
            out = torch.func.vmap(f)(vs)
            close(out, vs @ H, what, rtol=None if c["f64"] else 1e-3)
        else:
            out = f(v)
            close(out, H @ v0, what, rtol=None if c["f64"] else 1e-3)
            equal(v, v0, what + ": the vector")
            seen.append((k, v0, out))
        for x, y in zip(args, fn.args(pts[k])):
            for t1, t2 in zip(torch.utils._pytree.tree_leaves(x),
                              torch.utils._pytree.tree_leaves(y)):
                equal(t1, t2, what + ": the arguments")
    for k1, v1, o1 in seen:
        for k2, v2, o2 in seen:
            if k1 == k2 and c["f64"]:
                s = float(v1.norm() * v2.norm()) * 100 + 1e-9
                require(abs(float(v1 @ o2 - v2 @ o1)) < 1e-8 * s,
                        "product is not symmetric")
    if c["vseed"] % 10 == 0:
        for h in (hvp, hvp_at_x):
            try:
                h(fn, mode="fwd-fwd") if h is hvp else \
                    h(fn, x=fn.args(), mode="fwd-fwd")
            except IHVPUsageError:
                pass
            else:
                raise Violation("an unknown mode is accepted")
    return Result(p >= 2 and len(c["fn"]["dims"]) > 1, [
        c["mode"], "fixed" if c["fixed"] else "free"])


@st.composite
def net_cases(draw):
    spec = draw(model_specs(max_hidden=2, frozen=False, odd=ODD))
    return {"spec": spec, "n": draw(st.integers(1, 4)),
            "loss": draw(st.sampled_from(["ce", "sq", "margin"])),
            "mode": draw(st.sampled_from(["rev-rev", "rev-fwd"])),
            "seed": draw(st.integers(0, 99)), "f64": True}


def net_check(c):
    from dattri.func.hessian import hvp, hvp_at_x
    from dattri.func.utils import flatten_func, flatten_params

    set_dtype(c)
    m = Net(c["spec"])
    m.load_state_dict(make_states(c["spec"], 1)[0])
    m.eval()
    f = flatten_func(m)(make_loss(m, c["loss"], c["spec"]["d"]))
    x, y = make_xy(c["n"], c["spec"]["d"], c["spec"]["c"], c["seed"])
    th = flatten_params({k: p.detach() for k, p in m.named_parameters()})
    H = ref_hessian(c["spec"], 0, c["loss"], x, y)
    g = torch.Generator().manual_seed(c["seed"])
    v = torch.randn(len(th), generator=g)
    want = H @ v
    s = max(float(want.abs().max()), 1e-6)
    close(hvp(lambda t: f(t, (x, y)), mode=c["mode"])((th,), v), want, "hvp",
          scale=s)
    close(hvp_at_x(lambda t: f(t, (x, y)), x=(th,), mode=c["mode"])(v), want,
          "hvp_at_x", scale=s)
    return Result(len(th) > 3, [c["mode"], "loss=" + c["loss"]])


SUBS = [
    Sub("functions", cases(), check, quick=3200, thorough=40000, shards=5),
    Sub("networks", net_cases(), net_check, quick=1200, thorough=12000,
        shards=3),
]
