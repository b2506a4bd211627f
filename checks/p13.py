"""P13: the inverse-Hessian solvers agree with the explicit inverse."""
import itertools

from pv.core import Result, Sub, Violation
from pv.fns import Fn, fn_specs
from pv.gen import SEEDS, close, equal, require, set_dtype, st, torch

PROP = "P13"
RULE = (
    "Search 'exact': explicit and conjugate-gradient solvers, free and "
    "fixed-point form, on random functions of 1-3 arguments (positive definite "
    "for conjugate gradients), any differentiated argument, batches of vectors. Search 'arnoldi': the "
    "Arnoldi solver on quadratics with distinct spectra, rank limit and norm "
    "constant. Search 'lissa': the stochastic solver; each averaged estimate "
    "must be reachable by drawing the documented number of distinct samples at "
    "every step (all draws enumerated), full batches give the exact recursion, "
    "and ambiguous input sizes are refused. Search 'draws': over many "
    "repetitions the samples are drawn equally often. Search 'budget': with few "
    "iterations conjugate gradients never get worse, as many as dimensions "
    "are exact, and the residual keeps the tolerance. Search 'forms': the free "
    "and the fixed-point form agree for any options. Non-trivial: dimension >= 2 and at "
    "least two vectors, or several reachable values."
)


# numbers of vectors, now and then many
COUNTS = st.one_of(*[st.integers(1, 4)] * 11, st.integers(5, 70))


@st.composite
def cases(draw):
    solver = draw(st.sampled_from(["explicit", "cg"]))
    # only the explicit solver is for indefinite Hessians, too
    fn = draw(fn_specs(curv="convex" if solver == "cg" else None, big=True))
    return {"fn": fn, "solver": solver,
            "fixed": draw(st.booleans()),
            "mode": draw(st.sampled_from(["rev-rev", "rev-fwd"])),
            "reg": draw(st.sampled_from([0.0, 0.0, 0.5, 4.0])),
            "m": draw(COUNTS), "flat": draw(st.booleans()),
            "extra": draw(st.integers(0, 30)),
            "tol": draw(st.sampled_from([1e-7, 1e-10])),
            "zero": draw(st.integers(0, 5)) == 0,
            "eigvec": draw(st.booleans()),
            "vseed": draw(st.integers(0, 99)), "f64": True}


def check(c):
    from dattri.func import hessian as H

    set_dtype(c)
    fn = Fn(c["fn"])
    a = c["fn"]["argnum"]
    p = c["fn"]["dims"][a]
    g = torch.Generator().manual_seed(c["vseed"])
    M = fn.hess() + c["reg"] * torch.eye(p)
    if c["fn"]["curv"] == "any" and float(
            torch.linalg.eigvalsh(M).abs().min()) < 0.02:
        return Result(False, ["close to singular"])
    V = torch.randn(c["m"], p, generator=g)
    if c["zero"]:
        V[-1] = 0
    if c["eigvec"]:
        # the iteration converges in one step for an eigenvector
        V[0] = torch.linalg.eigh(M)[1][:, 0]
    want = V @ torch.linalg.inv(M)
    args = fn.args()
    kw = {"argnums": a, "regularization": c["reg"]}
    if c["solver"] == "cg":
        kw.update(mode=c["mode"], max_iter=2 * p + c["extra"], tol=c["tol"])
        free, fixed = H.ihvp_cg, H.ihvp_at_x_cg
    else:
        free, fixed = H.ihvp_explicit, H.ihvp_at_x_explicit
    f = fixed(fn, *args, **kw) if c["fixed"] else \
        (lambda v, q=free(fn, **kw): q(args, v))
    V0 = V.clone()
    rtol = 1e-5 if c["solver"] == "cg" else 1e-8
    out = f(V)
    close(out, want, "%s solver" % c["solver"], rtol=rtol,
          atol=1e-7 if c["solver"] == "cg" else None)
    equal(V, V0, "the vectors")
    if c["flat"]:
        one = f(V[0])
        close(one.reshape(-1), want[0], "%s solver, single vector"
              % c["solver"], rtol=rtol, scale=float(want.abs().max()))
    close(f(V), out, "second call", rtol=1e-9)
    return Result(p >= 2 and c["m"] >= 2, [
        "solver=" + c["solver"], "fixed" if c["fixed"] else "free"])


@st.composite
def arn_cases(draw):
    p = draw(st.sampled_from([5, 1, 2, 3, 4, 6, 8]))
    return {"p": p, "seed": draw(SEEDS),
            "eig": draw(st.lists(st.sampled_from(
                [0.3, 0.5, 0.8, 1.0, 1.5, 2.1, 2.7, 4.0, 5.5, 7.0]),
                min_size=p, max_size=p, unique=True)),
            "neg": draw(st.lists(st.integers(0, p - 1), max_size=p)),
            "reg": draw(st.sampled_from([0.0, 0.0, 0.25])),
            "k": draw(st.sampled_from(
                [None, *range(1, p + 2), *range(1, p)])),
            "nc": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 20.0])),
            "mode": draw(st.sampled_from(["rev-fwd", "rev-rev"])),
            "m": draw(COUNTS),
            "fixed": draw(st.sampled_from([True, True, True, False])),
            "rng": draw(SEEDS), "f64": True}


def arn_check(c):
    from checks.p08 import abs_gap_ok, gap_ok
    from dattri.func.hessian import ihvp_arnoldi, ihvp_at_x_arnoldi

    set_dtype(c)
    p = c["p"]
    g = torch.Generator().manual_seed(c["seed"])
    Q, _ = torch.linalg.qr(torch.randn(p, p, generator=g))
    w = torch.tensor(c["eig"])
    for i in set(c["neg"]):
        w[i] = -w[i]
    A = (Q * w) @ Q.T
    wr = w + c["reg"]
    k = c["k"] if c["k"] and c["fixed"] else 100
    if not gap_ok(wr) or not abs_gap_ok(wr, k) or \
            float(wr.abs().min()) < 0.05:
        return Result(False, ["degenerate"])
    x0, V = torch.randn(p, generator=g), torch.randn(c["m"], p, generator=g)
    f = lambda x: 0.5 * x @ A @ x + x.sum()  # noqa: E731
    torch.manual_seed(c["rng"])
    if c["fixed"]:
        kw = {"top_k": k} if c["k"] else {}
        h = ihvp_at_x_arnoldi(f, x0, max_iter=60, norm_constant=c["nc"],
                              mode=c["mode"], regularization=c["reg"], **kw)
        out = h(V)
        one = h(V[0])
    else:
        h = ihvp_arnoldi(f, max_iter=60, mode=c["mode"],
                         regularization=c["reg"])
        out = h((x0,), V)
        one = h((x0,), V[0])
    idx = torch.argsort(wr.abs(), descending=True)[:k]
    want = V @ (Q[:, idx] / wr[idx]) @ Q[:, idx].T
    close(out, want, "Arnoldi solver", rtol=2e-4,
          scale=max(float(want.abs().max()), 0.1))
    close(one.reshape(-1), want[0], "Arnoldi solver, single vector",
          rtol=2e-4, scale=max(float(want.abs().max()), 0.1))
    return Result(p >= 2 and c["m"] >= 2, ["fixed" if c["fixed"] else "free"] + [
        "negative kept"] * bool((wr[idx] < 0).any() and k < p))


@st.composite
def lissa_cases(draw):
    if draw(st.integers(0, 7)) == 0:
        # every batch is the whole data: the recursion is determined
        n = draw(st.integers(1, 40))
        size = {"bs": n + draw(st.sampled_from([0, 0, 1, 25])),
                "repeat": draw(st.integers(1, 12)),
                "depth": draw(st.sampled_from([4, 9, 30, 101]))}
    else:
        n = draw(st.integers(1, 4))
        size = {"bs": draw(st.integers(1, 5)),
                "repeat": draw(st.integers(1, 2)),
                "depth": draw(st.integers(0, 3))}
    return {"n": n, "p": draw(st.integers(1, 3)), "seed": draw(SEEDS), **size,
            "damping": draw(st.sampled_from([0.0, 0.1, 0.5])),
            "scaling": draw(st.sampled_from([1.0, 7.0, 50.0])),
            "m": draw(COUNTS), "fixed": draw(st.booleans()),
            "mode": draw(st.sampled_from(["rev-rev", "rev-fwd"])),
            "collate": draw(st.booleans()),
            "dim1": draw(st.booleans()), "rng": draw(SEEDS), "f64": True}


def lissa_check(c):
    from dattri.func.hessian import (
        IHVPUsageError, ihvp_at_x_lissa, ihvp_lissa,
    )

    set_dtype(c)
    n, p = c["n"], c["p"]
    g = torch.Generator().manual_seed(c["seed"])
    th = torch.randn(p, generator=g)
    X = torch.randn(n, p, generator=g)
    Y = torch.randn(n, generator=g)
    V = torch.randn(c["m"], p, generator=g)

    def f(t, x, y):
        x = x.T if c["dim1"] else x
        return (torch.nn.functional.softplus(x @ t) * y).mean() + \
            0.5 * t @ t

    xin = X.T.contiguous() if c["dim1"] else X
    func, collate = f, None
    if c["collate"]:
        func = lambda t, d: f(t, d[0], d[1])  # noqa: E731
        collate = lambda s: (s[0], (s[1], s[2]))  # noqa: E731
    kw = {"batch_size": c["bs"], "num_repeat": c["repeat"],
          "recursion_depth": c["depth"], "damping": c["damping"],
          "scaling": c["scaling"], "collate_fn": collate, "mode": c["mode"]}
    dims = (None, 1 if c["dim1"] else 0, 0)
    torch.manual_seed(c["rng"])
    if c["fixed"]:
        out = ihvp_at_x_lissa(func, th, xin, Y, in_dims=dims, **kw)(V)
    else:
        out = ihvp_lissa(func, **kw)((th, xin, Y), V, in_dims=dims)
    b = min(c["bs"], n)
    Hs = []
    for sub in itertools.combinations(range(n), b):
        i = list(sub)
        Hs.append(torch.autograd.functional.hessian(
            lambda t: (torch.nn.functional.softplus(X[i] @ t) * Y[i]).mean()
            + 0.5 * t @ t, th))
    require(tuple(out.shape) == (c["m"], p), "LiSSA: shape %s" % (
        tuple(out.shape),))

    def reach(v):
        ests = [v]
        for _ in range(c["depth"]):
            ests = [v + (1 - c["damping"]) * e - H @ e / c["scaling"]
                    for e in ests for H in Hs]
        return [e / c["scaling"] for e in ests]

    size = len(Hs) ** c["depth"]
    if size ** c["repeat"] <= 2000:
        for j in range(c["m"]):
            E = torch.stack(reach(V[j]))
            R = E
            for _ in range(c["repeat"] - 1):
                R = (R[:, None] + E[None]).reshape(-1, p)
            R = R / c["repeat"]
            d = (R - out[j]).abs().max(1).values.min()
            require(float(d) < 1e-8 * (1 + float(R.abs().max())),
                    "LiSSA estimate %d is not a mean of %d recursions over "
                    "batches of %d of %d samples" % (j, c["repeat"], b, n))
    else:
        require(bool(torch.isfinite(out).all()), "LiSSA estimate not finite")
    if c["seed"] % 7 == 0:
        for bad_x, bad_dims in (((th, xin, torch.cat([Y, Y])), dims),
                                ((th, xin, Y), dims[:2])):
            try:
                ihvp_lissa(func, **kw)(bad_x, V, in_dims=bad_dims)
            except IHVPUsageError:
                pass
            else:
                raise Violation("mismatching input sizes are accepted")
    return Result(p >= 2 and (size > 1 or c["depth"] > 0), [
        "depth=%d" % c["depth"], "repeat=%d" % c["repeat"]])


@st.composite
def draw_cases(draw):
    n = draw(st.integers(2, 24))
    return {"n": n, "bs": draw(st.integers(1, n - 1)), "seed": draw(SEEDS),
            "p": draw(st.integers(1, 3)), "rng": draw(SEEDS),
            "fixed": draw(st.booleans()), "f64": True}


def draw_check(c):
    """Over many repetitions every sample is drawn equally often."""
    from dattri.func.hessian import ihvp_at_x_lissa, ihvp_lissa

    set_dtype(c)
    n, p, b, reps = c["n"], c["p"], c["bs"], 240
    g = torch.Generator().manual_seed(c["seed"])
    X = torch.randn(n, p, generator=g)
    X[int(torch.randint(n, (1,), generator=g))] *= 5
    th, v = torch.randn(p, generator=g), torch.randn(p, generator=g)
    Hs = X[:, :, None] * X[:, None, :]
    f = lambda t, x: 0.5 * ((x @ t) ** 2).mean()  # noqa: E731
    kw = {"batch_size": b, "num_repeat": reps, "recursion_depth": 1,
          "scaling": 1.0}
    torch.manual_seed(c["rng"])
    if c["fixed"]:
        out = ihvp_at_x_lissa(f, th, X, in_dims=(None, 0), **kw)(v[None])[0]
    else:
        out = ihvp_lissa(f, **kw)((th, X), v[None], in_dims=(None, 0))[0]
    each = 2 * v - Hs @ v  # the estimate from each sample
    mean, spread = each.mean(0), each - each.mean(0)
    var = (spread ** 2).mean(0) / b * (n - b) / (n - 1)
    far = spread.abs().max(0).values
    # Bernstein's inequality with failure probability 1e-12 per coordinate
    t = 28.0
    slack = (2 * var * t / reps).sqrt() + 2 * far * t / (3 * reps)
    require(bool(((out - mean).abs() <= slack + 1e-9).all()),
            "LiSSA: mean of %d draws of %d of %d samples is %s, expected %s "
            "+- %s" % (reps, b, n, out.tolist(), mean.tolist(),
                       slack.tolist()))
    return Result(bool((far > slack).any()), ["fixed" if c["fixed"] else "free"])


@st.composite
def budget_cases(draw):
    return {"fn": draw(fn_specs(curv="convex", max_dim=6)),
            "reg": draw(st.sampled_from([0.0, 0.5, 4.0])),
            "m": draw(st.integers(1, 3)), "fixed": draw(st.booleans()),
            "tol": draw(st.sampled_from([1e-7, 1e-3, 0.05, 0.5, 3.0])),
            "vseed": draw(st.integers(0, 99)), "f64": True}


def budget_check(c):
    """Conjugate gradients with few iterations or a coarse tolerance."""
    from dattri.func import hessian as H

    set_dtype(c)
    fn = Fn(c["fn"])
    a = c["fn"]["argnum"]
    p = c["fn"]["dims"][a]
    g = torch.Generator().manual_seed(c["vseed"])
    M = fn.hess() + c["reg"] * torch.eye(p)
    V = torch.randn(c["m"], p, generator=g)
    want = V @ torch.linalg.inv(M)
    args = fn.args()

    def run(k, tol):
        kw = {"argnums": a, "regularization": c["reg"], "max_iter": k,
              "tol": tol}
        if c["fixed"]:
            return H.ihvp_at_x_cg(fn, *args, **kw)(V)
        return H.ihvp_cg(fn, **kw)(args, V)

    def err(out):
        d = out - want
        return ((d @ M) * d).sum(1).clamp(min=0).sqrt()

    unit = ((want @ M) * want).sum(1).sqrt()
    last = None
    for k in range(1, p + 1):
        e = err(run(k, 1e-12))
        if last is not None:
            require(bool((e <= last * (1 + 1e-6) + 1e-6 * unit).all()),
                    "the error grows from %s to %s in iteration %d" % (
                        last.tolist(), e.tolist(), k))
        last = e
    cond = float(torch.linalg.cond(M))
    if cond < 1e4:
        require(bool((last <= 1e-4 * unit).all()), "as many iterations as "
                "dimensions leave the error %s of %s" % (
                    last.tolist(), unit.tolist()))
    rough = (run(p + 5, c["tol"]) @ M - V).norm(dim=1)
    require(bool((rough <= c["tol"] * 1.001 + 1e-8 * cond).all()),
            "residual %s with tolerance %s" % (rough.tolist(), c["tol"]))
    return Result(p >= 2, ["fixed" if c["fixed"] else "free",
                           "tol=%s" % c["tol"]])


SOLVERS = {"explicit": (), "cg": ("max_iter", "tol", "mode"),
           "arnoldi": ("max_iter", "tol", "mode"),
           "lissa": ("batch_size", "num_repeat", "recursion_depth", "damping",
                     "scaling", "mode")}
VALUES = {"max_iter": [1, 2, 3, 7, 40], "tol": [1e-9, 1e-3, 0.3, 3.0],
          "mode": ["rev-rev", "rev-fwd"], "batch_size": [1, 2, 3],
          "num_repeat": [1, 2, 3], "recursion_depth": [1, 2, 5],
          "damping": [0.0, 0.1, 0.4], "scaling": [20.0, 50.0],
          "regularization": [0.0, 0.4, 2.0]}


@st.composite
def form_cases(draw):
    solver = draw(st.sampled_from(sorted(SOLVERS)))
    names = SOLVERS[solver] + (("regularization",) if solver != "lissa" else ())
    return {"solver": solver, "kw": {
        k: draw(st.sampled_from(VALUES[k])) for k in names
        # 5000 steps unless told otherwise
        if k == "recursion_depth" or draw(st.integers(0, 3))},
        "p": draw(st.integers(1, 9)), "n": draw(st.integers(3, 8)),
        "m": draw(st.integers(1, 3)), "arg": draw(st.booleans()),
        "seed": draw(SEEDS), "rng": draw(SEEDS), "f64": True}


def form_check(c):
    """A solver at a given point is the solver applied to that point."""
    from dattri.func import hessian as H

    set_dtype(c)
    g = torch.Generator().manual_seed(c["seed"])
    r = lambda *a: torch.randn(*a, generator=g)  # noqa: E731
    X, th, V = r(c["n"], c["p"]), r(c["p"]), r(c["m"], c["p"])

    def fn(t, x):
        return (torch.nn.functional.softplus(x @ t).mean()
                + 0.5 * ((x @ t) ** 2).mean() + 0.05 * (t ** 4).sum())

    func, args, kw = fn, (th, X), dict(c["kw"])
    if c["arg"]:
        func, args, kw["argnums"] = (lambda x, t: fn(t, x)), (X, th), 1
    dims = {"in_dims": tuple(None if a is th else 0 for a in args)} \
        if c["solver"] == "lissa" else {}
    torch.manual_seed(c["rng"])
    free = getattr(H, "ihvp_" + c["solver"])(func, **kw)(args, V, **dims)
    torch.manual_seed(c["rng"])
    fixed = getattr(H, "ihvp_at_x_" + c["solver"])(
        func, *args, **kw, **dims)(V)
    if not bool(torch.isfinite(free).all()):
        return Result(False, ["diverges"])
    close(fixed, free, "%s at a point and applied to the point"
          % c["solver"], rtol=1e-7)
    # a vector alone is a batch of one
    for what, call in (
            ("free", lambda v: getattr(H, "ihvp_" + c["solver"])(
                func, **kw)(args, v, **dims)),
            ("fixed", lambda v: getattr(H, "ihvp_at_x_" + c["solver"])(
                func, *args, **kw, **dims)(v))):
        pair = []
        for v in (V[0], V[:1]):
            torch.manual_seed(c["rng"])
            pair.append(call(v).reshape(-1))
        close(pair[0], pair[1], "%s %s solver of a vector alone" % (
            what, c["solver"]), rtol=1e-7)
    return Result(len(c["kw"]) > 0, [c["solver"]])


def probe_tuple(_c):
    """A tuple for argnums is documented for the fixed-point explicit solver."""
    from dattri.func.hessian import ihvp_at_x_explicit
    f = lambda x, y: (x ** 2).sum() + (y ** 2).sum() + x.sum() * y.sum()  # noqa
    try:
        h = ihvp_at_x_explicit(f, torch.ones(2), torch.ones(2), argnums=(0, 1))
        h(torch.ones(1, 4))
    except Exception as e:
        raise Violation("tuple argnums: %s" % e) from e


SUBS = [
    Sub("exact", cases(), check, quick=800, thorough=30000, shards=3),
    Sub("arnoldi", arn_cases(), arn_check, quick=640, thorough=16000, shards=4),
    Sub("lissa", lissa_cases(), lissa_check, quick=480, thorough=20000,
        shards=3),
    Sub("draws", draw_cases(), draw_check, quick=60, thorough=3000, shards=3),
    Sub("budget", budget_cases(), budget_check, quick=160, thorough=8000,
        shards=2),
    Sub("forms", form_cases(), form_check, quick=300, thorough=8000, shards=3),
    Sub("tuple", st.just({}), probe_tuple, quick=1, probe_for="tuple-argnums"),
]
