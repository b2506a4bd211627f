"""P09: DataInf equals its layer-wise closed form."""
import math

from pv.core import Result, Sub
from pv.gen import (
    close, layer_list, ref_model, require, set_dtype, setup_nontrivial,
    setup_task, side_loader, st, torch, trainable, Net, ref_grads,
)
from pv.ifs import full_loader, full_xy, grads, if_cases

PROP = "P09"
RULE = (
    "A case is a random network (1-3 layers, optional frozen layer), 1-2 "
    "checkpoints, separate loss/target, an ordered parameter selection that "
    "keeps the tensors of a layer together, loaders with list/tuple/dict "
    "batches, a curvature loader, data ratio and regularisation. Scores must "
    "equal the checkpoint mean of the per-layer sum over the used curvature "
    "samples of g.(v - (v.g_i)/(reg + |g_i|^2) g_i)/reg, and, with one "
    "curvature sample, the exact inverse of (g g^T + reg I). Non-trivial: at "
    "least two layers are selected and several training batches are used."
)
ASSUMPTIONS = ["cache() is called first and the regularisation is positive."]


def groups(c):
    """Column slices per layer, in the order of the selection."""
    m = Net(c["spec"])
    pd = dict(m.named_parameters())
    out, prev, i = [], None, 0
    for n in layer_list(c) or trainable(m):
        mod, sz = n.rsplit(".", 1)[0], pd[n].numel()
        if mod == prev:
            out[-1][1] += sz
        else:
            out.append([i, i + sz])
        prev = mod
        i += sz
    return out


@st.composite
def cases(draw):
    c = draw(if_cases(["datainf"], max_hidden=2, layers=False,
                      regs=(0.001, 0.01, 0.1, 1.0, 5.0), big=True))
    if c["full"] is None:
        c["full"] = dict(c["tr"])
    if draw(st.booleans()):
        names = trainable(Net(c["spec"]))
        mods = []
        for n in names:
            if n.rsplit(".", 1)[0] not in mods:
                mods.append(n.rsplit(".", 1)[0])
        pick = draw(st.permutations(mods))[:draw(st.integers(1, len(mods)))]
        sel = []
        for md in pick:
            own = [n for n in names if n.rsplit(".", 1)[0] == md]
            own = list(draw(st.permutations(own)))
            sel += own[:draw(st.integers(1, len(own)))]
        c["layers"] = sel[0] if len(sel) == 1 and draw(st.booleans()) else sel
    c["ratio"] = draw(st.sampled_from([1.0, 1.0, 0.7, 0.5, 0.4, 0.3]))
    return c


def check(c):
    from dattri.algorithm.influence_function import IFAttributorDataInf

    set_dtype(c)
    x, y = full_xy(c)
    bs = c["full"]["bs"]
    nb = -(-len(x) // bs)
    used = min(len(x), math.ceil(nb * c["ratio"]) * bs)
    gr = groups(c)
    want = 0
    for k in range(c["n_ckpt"]):
        G = ref_grads(ref_model(c["spec"], k), c["loss"], x[:used], y[:used],
                      layer_list(c))
        g, t = grads(c, k, "tr", False), grads(c, k, "te", True)
        for a, b in gr:
            Gl, tl = G[:, a:b], t[:, a:b]
            co = (tl @ Gl.T) / (c["reg"] + (Gl ** 2).sum(1))
            q = (tl - co @ Gl / len(Gl)) / c["reg"]
            if used == 1:
                q2 = tl @ torch.linalg.inv(
                    Gl.T @ Gl + c["reg"] * torch.eye(b - a))
                if float((q - q2).abs().max()) > 1e-6 * max(
                        1.0, float(q2.abs().max())):
                    raise RuntimeError("oracle mismatch")
            want = want + g[:, a:b] @ q.T / c["n_ckpt"]
    task, _ = setup_task(c)
    a = IFAttributorDataInf(task=task, layer_name=c["layers"],
                            regularization=c["reg"],
                            fim_estimate_data_ratio=c["ratio"])
    a.cache(full_loader(c))
    scale = max(float(want.abs().max()), 1e-4)
    for _ in range(2):
        got = a.attribute(side_loader(c, "tr"), side_loader(c, "te"))
        close(got, want, "scores", rtol=1e-7, scale=scale)
    return Result(setup_nontrivial(c) and len(gr) >= 2, [
        "layers=%d" % len(gr), "ratio=%s" % c["ratio"],
        "selected" if c["layers"] else "all", "kind=" + c["kind"]])


SUBS = [Sub("scores", cases(), check, quick=1600, thorough=30000, shards=8)]
