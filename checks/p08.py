"""P08: Arnoldi influence is a top-eigenspace inverse-Hessian product."""
from pv.core import Result, Sub
from pv.gen import (
    SEEDS, close, make_xy, loader, require, set_dtype, setup_nontrivial,
    setup_task, side_loader, side_xy, st, torch, ref_hessian, layer_list,
)
from pv.ifs import full_loader, full_xy, grads, if_cases, n_params

PROP = "P08"
RULE = (
    "Search 'quadratic': a quadratic with a generated spectrum (distinct or "
    "repeated, positive or with negative eigenvalues), basis, projection size, "
    "iteration limit, norm constant, seed and features as tensor or dict; "
    "search 'scores': the attributor on random tasks. With all eigenvalues "
    "distinct and enough iterations the inner products of projected vectors "
    "must equal the inverse restricted to the top-k (positive) eigenvectors; "
    "always they must be symmetric, the same on every call and seed, and never "
    "exceed the true inverse quadratic form. Non-trivial: dimension >= 3."
)
ASSUMPTIONS = [
    "Exact comparison needs relative eigenvalue gaps above 0.02 and no eigenvalue below 0.05 in magnitude; otherwise "
    "only the invariants are checked. The quadratic-form bound is checked when "
    "eigenvalues are equal or 0.02 apart: near-degenerate spectra make the "
    "single-pass Gram-Schmidt of the iteration lose orthogonality.",
]


@st.composite
def quad_cases(draw):
    p = draw(st.integers(1, 8))
    return {
        "p": p, "seed": draw(SEEDS),
        "eig": draw(st.lists(st.sampled_from(
            [0.3, 0.5, 0.8, 1.0, 1.5, 2.0, 2.7, 4.0, 5.5, 7.0]),
            min_size=p, max_size=p, unique=draw(st.integers(0, 3)) > 0)),
        "neg": draw(st.lists(st.integers(0, p - 1), max_size=2))
        if draw(st.integers(0, 3)) == 0 else [],
        "reg": draw(st.sampled_from([0.0, 0.0, 0.25, 2.0])),
        "k": draw(st.integers(1, p + 3)),
        "max_iter": draw(st.integers(2, p + 2))
        if draw(st.integers(0, 3)) == 0 else 60,
        "nc": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 10.0])),
        "pseed": draw(st.integers(0, 20)),
        "n": draw(st.one_of(*[st.integers(1, 3)] * 9, st.integers(4, 80))),
        "mode": draw(st.sampled_from(["rev-fwd", "rev-rev"])),
        "dict": draw(st.booleans()), "f64": True,
    }


def spectrum(H):
    w, V = torch.linalg.eigh(H)
    return w, V


def gap_ok(w):
    if float(w.abs().min()) < 0.05:
        return False
    if len(w) < 2:
        return True
    s = torch.sort(w).values
    return float((s[1:] - s[:-1]).min()) > 0.02 * float(w.abs().max())


def clusters_ok(w):
    """Eigenvalues are either equal or clearly apart (no near-breakdown)."""
    s = torch.sort(w).values
    d = (s[1:] - s[:-1]) / float(w.abs().max())
    return bool(((d < 1e-11) | (d > 0.02)).all())


def abs_gap_ok(w, k):
    """The choice of the k eigenvalues largest in magnitude is clear-cut."""
    a = torch.sort(w.abs(), descending=True).values
    return k >= len(a) or float(a[k - 1] - a[k]) > 0.02 * float(a[0])


def top_inverse(H, k):
    w, V = spectrum(H)
    idx = torch.argsort(w.abs(), descending=True)[:k]
    idx = idx[w[idx] > 0]
    return (V[:, idx] / w[idx]) @ V[:, idx].T


def quad_check(c):
    from dattri.func.projection import arnoldi_project

    set_dtype(c)
    p = c["p"]
    g = torch.Generator().manual_seed(c["seed"])
    Q, _ = torch.linalg.qr(torch.randn(p, p, generator=g))
    w = torch.tensor(c["eig"])
    for i in c["neg"]:
        w[i] = -w[i]
    A = (Q * w) @ Q.T
    x0 = torch.randn(p, generator=g)
    V = torch.randn(c["n"], p, generator=g)

    def f(x):
        return 0.5 * x @ A @ x + x.sum()

    def build(seed):
        return arnoldi_project(
            feature_dim=p, func=f, x=x0.clone(), proj_dim=c["k"],
            max_iter=c["max_iter"], norm_constant=c["nc"], mode=c["mode"],
            regularization=c["reg"], seed=seed, device="cpu")

    state = torch.get_rng_state()
    pr = build(c["pseed"])
    if c["dict"] and p >= 2:
        feat = {"a": V[:, :1].reshape(-1, 1), "b": V[:, 1:]}
    else:
        feat = V
    out = pr(feat)
    require(out.shape[0] == c["n"] and out.dim() == 2,
            "projected shape %s" % (tuple(out.shape),))
    require(bool(torch.isfinite(out).all()), "projection is not finite")
    close(build(c["pseed"])(V), out, "same seed, new projector", rtol=1e-9)
    close(pr(V[:1]), out[:1], "later call on the same projector", rtol=1e-9)
    require(torch.equal(torch.get_rng_state(), state),
            "projection changed the global random state")
    got = out @ out.T
    H = A + c["reg"] * torch.eye(p)
    wH, _ = spectrum(H)
    tags = []
    enough = c["max_iter"] >= p + 1
    if enough and gap_ok(wH) and abs_gap_ok(wH, c["k"]):
        want = V @ top_inverse(H, c["k"]) @ V.T
        tags.append("exact")
        if float(wH.min()) < 0:
            tags.append("negative")
        close(got, want, "inner products of projections", rtol=1e-4,
              scale=max(float(want.abs().max()), float((V ** 2).sum(1).max())
                        * 0.1))
    if float(wH.min()) > 0.1 and clusters_ok(wH):
        full = (V @ torch.linalg.inv(H) * V).sum(1)
        require(bool((got.diagonal() <= full * (1 + 1e-3) + 1e-6).all()),
                "projected norm exceeds the inverse quadratic form")
        tags.append("bound")
    return Result(p >= 3 and bool(tags), tags)


@st.composite
def big_cases(draw):
    top = draw(st.integers(1, 6))
    ratio = draw(st.sampled_from([1.5, 2.0, 3.0, 5.0]))
    return {
        "seed": draw(SEEDS), "bulk": draw(st.integers(4, 36)),
        "top": [round(4.0 * ratio ** i, 3) for i in range(top)],
        "neg": draw(st.sampled_from([None, None, 0, top - 1])),
        "k": draw(st.integers(1, top)),
        "nc": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5])),
        "pseed": draw(st.integers(0, 20)),
        "mode": draw(st.sampled_from(["rev-fwd", "rev-rev"])),
        "f64": draw(st.booleans()),
    }


def big_check(c):
    """Dominant eigenvalues converge long before the iteration ends; they must
    not be found a second time."""
    from dattri.func.projection import arnoldi_project

    set_dtype(c)
    g = torch.Generator().manual_seed(c["seed"])
    bulk = 1.0 + torch.rand(c["bulk"], generator=g, dtype=torch.float64)
    w = torch.cat([torch.tensor(c["top"], dtype=torch.float64), bulk])
    if c["neg"] is not None:
        w[c["neg"]] = -w[c["neg"]]
    p = len(w)
    Q, _ = torch.linalg.qr(torch.randn(p, p, generator=g, dtype=torch.float64))
    A64 = (Q * w) @ Q.T
    A = ((A64 + A64.T) / 2).to(torch.get_default_dtype())

    def f(x):
        return 0.5 * x @ A @ x + x.sum()

    pr = arnoldi_project(feature_dim=p, func=f, x=torch.zeros(p),
                         proj_dim=c["k"], max_iter=p + 1,
                         norm_constant=c["nc"], mode=c["mode"],
                         seed=c["pseed"], device="cpu")
    out = pr(torch.eye(p)).double()
    want = top_inverse(A64, c["k"])
    # rounding of the Gram-Schmidt process, relative to the largest eigenvalue
    tol = (1e-6 if c["f64"] else 2e-2) * float((1 / w.abs()).max())
    close(out @ out.T, want, "inner products of projections", rtol=0.0, atol=tol)
    return Result(p >= 12, ("f64" if c["f64"] else "f32",))


@st.composite
def score_cases(draw):
    c = draw(if_cases(["arnoldi"], max_d=3, max_h=3, regs=(1.0, 2.0, 4.0),
                      odd=("post", "twice", "tie")))
    if c["full"] is None:
        c["full"] = dict(c["tr"])
    c["k"] = draw(st.one_of(st.just(60), st.integers(1, 6)))
    c["nc"] = draw(st.sampled_from([1.0, 1.0, 3.0]))
    c["aseed"] = draw(st.integers(0, 9))
    c["ratio"] = draw(st.sampled_from([1.0, 1.0, 0.7, 0.5, 0.4, 0.3]))
    return c


def score_check(c):
    import math

    from dattri.algorithm.influence_function import IFAttributorArnoldi

    set_dtype(c)
    p = n_params(c)
    x, y = full_xy(c)
    bs = c["full"]["bs"]
    nb = -(-len(x) // bs)
    used = min(len(x), math.ceil(nb * c["ratio"]) * bs)
    x, y = x[:used], y[:used]
    want, exact, pd, bound = 0, True, True, 0
    for k in range(c["n_ckpt"]):
        H = ref_hessian(c["spec"], k, c["loss"], x, y, layer_list(c))
        H = H + c["reg"] * torch.eye(len(H))
        w, _ = spectrum(H)
        exact = exact and gap_ok(w) and abs_gap_ok(w, c["k"])
        pd = pd and float(w.min()) > 0.1 and clusters_ok(w)
        g, t = grads(c, k, "tr", False), grads(c, k, "te", True)
        want = want + g @ top_inverse(H, c["k"]) @ t.T / c["n_ckpt"]
        bound = bound + (g @ torch.linalg.inv(H) * g).sum(1) / c["n_ckpt"]
    task, _ = setup_task(c)

    def make():
        a = IFAttributorArnoldi(
            task=task, layer_name=c["layers"], proj_dim=c["k"], max_iter=80,
            norm_constant=c["nc"], regularization=c["reg"], seed=c["aseed"],
            precompute_data_ratio=c["ratio"])
        a.cache(full_loader(c))
        return a

    a = make()
    got = a.attribute(side_loader(c, "tr"), side_loader(c, "te"))
    tags = []
    if exact:
        tags.append("exact")
        close(got, want, "scores", rtol=1e-4,
              scale=max(float(want.abs().max()), 1e-2))
    require(tuple(got.shape) == tuple(want.shape), "shape of scores")
    require(bool(torch.isfinite(got).all()), "scores are not finite")
    torch.manual_seed(999)
    close(make().attribute(side_loader(c, "tr"), side_loader(c, "te")), got,
          "scores of a second attributor with the same seed", rtol=1e-9)
    if pd and c["target"] in (None, c["loss"]):
        d = a.attribute(side_loader(c, "tr"), side_loader(c, "tr")).diagonal()
        require(bool((d <= bound * (1 + 1e-3) + 1e-6).all())
                and bool((d >= -1e-9).all()),
                "self-influence outside [0, g H^-1 g]")
        tags.append("bound")
    if float(want.abs().max()) < 1e-9:
        tags.append("zero")
    return Result(setup_nontrivial(c) and p >= 3, tags)


SUBS = [
    Sub("quadratic", quad_cases(), quad_check, quick=2000, thorough=40000,
        shards=4),
    Sub("dominant", big_cases(), big_check, quick=240, thorough=6000, shards=4),
    Sub("scores", score_cases(), score_check, quick=600, thorough=8000,
        shards=4),
]
