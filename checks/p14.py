"""P14: inverse-Fisher products invert the regularised gradient outer product."""
from pv.core import Result, Sub
from pv.fns import Fn, fn_specs
from pv.gen import close, equal, set_dtype, st, torch

PROP = "P14"
RULE = (
    "A case is a random smooth function of 1-3 arguments (nested tuples/dicts "
    "for the ones not differentiated), the differentiated argument, several "
    "points, a regularisation, vectors and the free or fixed-point form. The "
    "result must solve (g g^T + reg I) u = v for every vector, with g from "
    "reverse-mode autograd in float64; it must be linear in v and leave its "
    "inputs unchanged. Non-trivial: dimension >= 2 and at least two vectors."
)


@st.composite
def cases(draw):
    return {"fn": draw(fn_specs(big=True)), "fixed": draw(st.booleans()),
            "reg": draw(st.sampled_from([0.01, 0.1, 1.0, 5.0])),
            "m": draw(st.one_of(*[st.integers(1, 4)] * 11, st.integers(5, 70))),
            "points": draw(st.integers(1, 3)),
            "default": draw(st.booleans()), "single": draw(st.booleans()),
            "vseed": draw(st.integers(0, 99)), "f64": True}


def check(c):
    from dattri.func.fisher import ifvp_at_x_explicit, ifvp_explicit

    set_dtype(c)
    fn = Fn(c["fn"])
    a, p = c["fn"]["argnum"], c["fn"]["dims"][c["fn"]["argnum"]]
    g = torch.Generator().manual_seed(c["vseed"])
    kw = {"argnums": a, "regularization": c["reg"]}
    if a == 0 and c["default"]:
        kw.pop("argnums")
    free = ifvp_explicit(fn, **kw)
    for i in range(c["points"]):
        xs = fn.point if i == 0 else [
            torch.randn(k, generator=g) for k in c["fn"]["dims"]]
        V = torch.randn(c["m"], p, generator=g)
        gr = fn.gradient(xs)
        want = torch.linalg.solve(
            torch.outer(gr, gr) + c["reg"] * torch.eye(p), V.T).T
        args = fn.args(xs)
        V0 = V.clone()
        f = ifvp_at_x_explicit(fn, *args, **kw) if c["fixed"] else \
            (lambda v: free(args, v))
        out = f(V)
        sc = float(want.abs().max())
        close(out, want, "inverse Fisher product", rtol=1e-8, scale=sc)
        equal(V, V0, "the vectors")
        for s, (u, w) in zip(fn.args(xs), enumerate(args)):
            a_, b_ = fn.unpack(u, s), fn.unpack(u, w)
            equal(b_, a_, "argument %d" % u)
        if c["single"]:
            close(f(V[:1]).reshape(-1), want[0], "one vector", rtol=1e-8,
                  scale=sc)
        close(f(2 * V), 2 * out, "linearity", rtol=1e-9, scale=2 * sc)
    return Result(p >= 2 and c["m"] >= 2,
                  ["fixed" if c["fixed"] else "free", "argnum=%d" % a])


SUBS = [Sub("product", cases(), check, quick=4000, thorough=40000, shards=8)]
