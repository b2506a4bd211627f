"""Random smooth scalar functions of several arguments, with references."""
from pv.gen import SEEDS, st, torch


@st.composite
def fn_specs(draw, max_args=3, max_dim=5, tree=True, curv=None,
             negative=False, big=False):
    n = draw(st.integers(1, max_args))
    # now and then more coordinates than any block or chunk of a small size
    wide = big and draw(st.integers(0, 15)) == 0
    s = {"dims": [draw(st.integers(20, 140) if wide
                       else st.integers(1, max_dim)) for _ in range(n)],
         "seed": draw(SEEDS), "argnum": draw(st.integers(0, n - 1)),
         # arguments other than the differentiated one may be nested
         "form": [draw(st.sampled_from(["vec", "mat", "tuple", "dict"]))
                  if tree else "vec" for _ in range(n)],
         "curv": draw(st.sampled_from(["convex", "any"])) if curv is None
         else curv}
    s["form"][s["argnum"]] = "vec"
    if negative and draw(st.integers(0, 4)) == 0:
        s["argnum"] -= n  # counted from the end
    return s


class Fn:
    """f(x_1..x_n) = sum of pairwise couplings, softplus and sine terms."""

    def __init__(self, s):
        g = torch.Generator().manual_seed(s["seed"])
        r = lambda *a: torch.randn(*a, generator=g)  # noqa: E731
        d = s["dims"]
        self.s = s = dict(s, argnum=s["argnum"] % len(d))
        self.C = {(i, j): r(d[i], d[j]) for i in range(len(d))
                  for j in range(i)}
        self.W = [r(4, k) for k in d]
        Q = [r(k, k) for k in d]
        self.Q = [q @ q.T / k + 0.6 * torch.eye(k) for q, k in zip(Q, d)]
        self.T = r(3, d[s["argnum"]])
        self.point = [r(k) for k in d]

    def pack(self, i, v):
        f = self.s["form"][i]
        if f == "mat":
            return v.reshape(1, -1)
        if f == "tuple":
            return (v[:1], v[1:])
        if f == "dict":
            return {"a": v[:1], "b": v[1:]}
        return v

    def unpack(self, i, v):
        f = self.s["form"][i]
        if f == "mat":
            return v.reshape(-1)
        if f == "tuple":
            return torch.cat([v[0], v[1]])
        if f == "dict":
            return torch.cat([v["a"], v["b"]])
        return v

    def raw(self, *xs):
        tot = 0
        for i, x in enumerate(xs):
            tot = tot + 0.5 * x @ self.Q[i] @ x
            tot = tot + torch.nn.functional.softplus(self.W[i] @ x).sum()
        a = self.s["argnum"]
        if self.s["curv"] == "any":
            for (i, j), C in self.C.items():
                tot = tot + torch.tanh(xs[i]) @ C @ torch.sin(xs[j])
            tot = tot + 2 * torch.sin(self.T @ xs[a]).sum()
        else:
            # positive weight depending on the other arguments
            w = 1 + sum((x ** 2).mean() for i, x in enumerate(xs) if i != a)
            tot = tot + w * 0.3 * (xs[a] ** 4).sum()
        return tot

    def __call__(self, *args):
        return self.raw(*[self.unpack(i, v) for i, v in enumerate(args)])

    def args(self, xs=None):
        return tuple(self.pack(i, v.clone())
                     for i, v in enumerate(xs or self.point))

    def hess(self, xs=None):
        xs = list(xs or self.point)
        a = self.s["argnum"]

        def f(z):
            ys = list(xs)
            ys[a] = z
            return self.raw(*ys)
        return torch.autograd.functional.hessian(f, xs[a].clone()).detach()

    def gradient(self, xs=None):
        xs = [x.clone() for x in (xs or self.point)]
        a = self.s["argnum"]
        xs[a].requires_grad_(True)
        return torch.autograd.grad(self.raw(*xs), xs[a])[0]
