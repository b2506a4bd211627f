"""Shared case generators and float64 oracles for influence-function checks."""
from pv.gen import (
    ODD, Net, layer_list, loader, make_xy, ref_grads, ref_hessian, ref_model,
    setups, side_loader, side_xy, st, torch, trainable,
)


@st.composite
def if_cases(draw, methods, kinds=("list", "tuple", "dict"), losses=None,
             max_ckpt=2, regs=(0.5, 1.0, 3.0), odd=ODD, **kw):
    """A set-up plus the data the curvature is estimated on."""
    m = draw(st.sampled_from(methods))
    c = draw(setups(max_ckpt=max_ckpt, kinds=kinds, f32=False, max_test=3,
                    losses=losses or ["ce", "sq", "margin"], odd=odd, **kw))
    c["method"] = m
    c["reg"] = draw(st.sampled_from(list(regs)))
    n = draw(st.integers(1, 6))
    if kw.get("big") and draw(st.integers(0, 15)) == 9:
        n = draw(st.integers(15, 35))
    # None: the attributed training loader is also the curvature loader
    c["full"] = None if draw(st.integers(0, 2)) == 0 else {
        "n": n, "seed": draw(st.integers(0, 500)),
        "bs": draw(st.integers(1, n)) if draw(st.booleans()) else n,
        "idx": None}
    return c


def full_xy(c):
    return side_xy(c, "full" if c["full"] else "tr")


def full_loader(c):
    return side_loader(c, "full" if c["full"] else "tr")


def full_batches(c):
    x, y = full_xy(c)
    bs = (c["full"] or c["tr"])["bs"]
    return [(x[i:i + bs], y[i:i + bs]) for i in range(0, len(x), bs)]


def hessians(c, k, reg):
    """Per-batch regularised Hessians of the mean loss."""
    names = layer_list(c)
    out = []
    for x, y in full_batches(c):
        H = ref_hessian(c["spec"], k, c["loss"], x, y, names)
        out.append(H + reg * torch.eye(len(H), dtype=torch.float64))
    return out


def grads(c, k, side, use_target):
    m = ref_model(c["spec"], k)
    loss = (c["target"] or c["loss"]) if use_target else c["loss"]
    return ref_grads(m, loss, *side_xy(c, side), names=layer_list(c))


def n_params(c):
    m = Net(c["spec"])
    pd = dict(m.named_parameters())
    return sum(pd[n].numel() for n in (layer_list(c) or trainable(m)))
