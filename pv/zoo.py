"""Every attribution method behind one interface, for cross-cutting checks.

A case ``c`` describes a model, its checkpoints, losses and options; a handle
built from it offers ``cache``, ``scores`` (training x test) and
``self_scores``. Handles of the functional methods can share one task.
"""
import copy

from pv.gen import (
    F, Net, ODD, SEEDS, build_task, loader, loss_value, make_states, make_xy,
    model_specs, proj_params, st, torch, trainable,
)

IF = ["explicit", "cg", "lissa", "arnoldi", "datainf"]
# "dot" is a user-defined method on top of the documented base class
FUNCTIONAL = ["tracin", "trak", "trak_cache", *IF, "ekfac", "dot"]
BLOCK = ["logra", "factgrass", "block"]
METHODS = [*FUNCTIONAL, "rps", "knn", "dvemb", *BLOCK]
# cache() has to be called before anything is attributed
NEEDS_CACHE = {"trak_cache", "arnoldi", "datainf", "ekfac", "dvemb"}
# without cached data the first training data attributed is kept as such
STICKY = {"explicit", "cg", "lissa", *BLOCK}
NO_CACHE = {"tracin", "trak", "knn"}
SELF = {"tracin", "trak", "trak_cache", *IF, "ekfac", "dot", *BLOCK}
DICT_OK = {"tracin", "trak", "trak_cache", "cg", "dot"}


def own_method():
    """A user-defined inner-product method."""
    from dattri.algorithm.base import BaseInnerProductAttributor

    class Own(BaseInnerProductAttributor):
        def transform_train_rep(self, ckpt_idx, train_rep):
            return train_rep * (ckpt_idx + 1)

        def transform_test_rep(self, ckpt_idx, test_rep):
            return test_rep.flip(1) / (2 * ckpt_idx + 1)

    return Own


@st.composite
def zoo_cases(draw, methods=None, max_ckpt=3, losses=("ce", "sq", "margin"),
              share=None):
    """A method (several with ``share``), its model, losses and options."""
    ms = [draw(st.sampled_from(methods or (
        FUNCTIONAL if share and share > 1 else METHODS)))]
    for _ in range((share or 1) - 1):
        ms.append(draw(st.sampled_from(
            [m for m in FUNCTIONAL if not methods or m in methods])))
    plain = any(m in BLOCK or m in ("dvemb", "rps", "ekfac", "knn") for m in ms)
    odd = set(ODD)
    if any(m in BLOCK or m in ("dvemb", "ekfac") for m in ms):
        odd -= {"tie"}
    if "ekfac" in ms:
        odd -= {"twice"}
    spec = draw(model_specs(max_hidden=1, frozen=not plain, odd=odd))
    if not trainable(Net(spec)):
        spec["frozen"] = []
    one = any(m in BLOCK or m in ("ekfac", "dvemb", "rps") for m in ms)
    c = {"methods": ms, "spec": spec,
         "n_ckpt": 1 if one else draw(st.integers(1, max_ckpt)),
         "loss": draw(st.sampled_from(list(losses))),
         "target": draw(st.sampled_from([None, None, *losses])),
         "kind": draw(st.sampled_from(
             ["list", "tuple"] + (["dict"] if set(ms) <= DICT_OK else []))),
         "reg": draw(st.sampled_from([0.5, 1.0, 3.0])),
         "norm": draw(st.booleans()), "vec": draw(st.booleans()),
         "mode": draw(st.sampled_from(["rev-rev", "rev-fwd"])),
         "proj": draw(proj_params(max_dim=5)),
         "noproj": draw(st.booleans()),
         "k": draw(st.integers(1, 4)),
         "epoch": draw(st.sampled_from([1, 8])),
         "hessian": draw(st.sampled_from(["eFIM", "eFIM", "Identity"])),
         "offload": draw(st.sampled_from(["none", "cpu", "disk"])),
         "chunk": draw(st.integers(1, 3)),
         "seed": draw(SEEDS), "aseed": draw(st.integers(0, 9)),
         "layers": None, "mods": None, "f64": True}
    names = trainable(Net(spec))
    if draw(st.booleans()):
        perm = draw(st.permutations(names))
        c["layers"] = list(perm[:draw(st.integers(1, len(names)))])
    mods = ["body.%d" % i for i in range(len(spec["hidden"]))] + ["head"]
    if draw(st.booleans()):
        perm = draw(st.permutations(mods))
        c["mods"] = list(perm[:draw(st.integers(1, len(mods)))])
    return c


def soft_loss(phi, y):
    if phi.shape[1] == 1:
        return F.binary_cross_entropy_with_logits(phi, y)
    return F.cross_entropy(phi, y)


def pool(c, side, n):
    sp = c["spec"]
    return make_xy(n, sp["d"], max(2, sp["c"]),
                   c["seed"] + (0 if side == "tr" else 77))


def ld(c, side, n, idx, bs):
    """A loader delivering pool samples ``idx`` in batches of ``bs``."""
    x, y = pool(c, side, n)
    return loader(x, y, bs, c["kind"], list(idx))


def module_fn(name):
    def f(model, batch, device):
        x, y = batch
        return loss_value(name, model(x.to(device)), y.to(device))

    return f


def own_state(model, states, alias):
    """The checkpoints; with ``alias`` the first is the model's own state."""
    if alias:
        model.load_state_dict(states[0])
        return [model.state_dict(), *states[1:]]
    return states


def load_func(load):
    """A checkpoint loading function of the user, or None."""
    if not load:
        return None

    def f(model, checkpoint):
        if load != "same":
            model = copy.deepcopy(model)
        model.load_state_dict(checkpoint)
        return model.eval()

    return f


def make_task(c, method, wrap=None, alias=False, load=None):
    """A (task, model, checkpoints) triple for a method.

    ``wrap`` may replace the loss, target and probability functions.
    """
    from dattri.task import AttributionTask

    if method == "knn":
        return None, None, []
    w = wrap or (lambda f: f)
    lf = load_func(load)
    if method in FUNCTIONAL or method == "dvemb" and not c["norm"]:
        from pv.gen import make_loss
        model = Net(c["spec"])
        model.to(torch.get_default_dtype())
        if load in ("new", "lazy"):
            # the user's functions use this model with the given parameters
            model.eval()
        states = make_states(c["spec"], c["n_ckpt"])
        if c["n_ckpt"] > 1:
            states = own_state(model, states, alias)
        d = c["spec"]["d"]
        task = None

        def fn(name):
            if load != "lazy":
                return make_loss(model, name, d, c["kind"])

            # the user's functions use whatever model the task holds
            def f(params, data):
                return make_loss(task.get_model(), name, d, c["kind"])(
                    params, data)

            return f

        task = AttributionTask(
            loss_func=w(fn(c["loss"])),
            model=model, checkpoints=states, checkpoints_load_func=lf,
            target_func=None if c["target"] is None else w(fn(c["target"])))
        return task, model, states
    _, model = build_task(c["spec"], 1)
    states = make_states(c["spec"], 1)
    if method == "rps":
        task = AttributionTask(loss_func=w(soft_loss), model=model,
                               checkpoints=states, checkpoints_load_func=lf)
    else:
        task = AttributionTask(
            loss_func=w(module_fn(c["loss"])), model=model,
            checkpoints=states, checkpoints_load_func=lf,
            target_func=None if c["target"] is None
            else w(module_fn(c["target"])))
    return task, model, states


class Handle:
    """One attributor."""

    def __init__(self, c, method, shared=None, wrap=None, cache_dir=None):
        self.c, self.m = c, method
        self.task, self.model, self.states = shared or make_task(
            c, method, wrap)
        self.wrap = wrap or (lambda f: f)
        self.att = self._make(cache_dir)

    def _make(self, cache_dir):
        c, m = self.c, self.m
        t = self.task
        if m == "tracin":
            from dattri.algorithm.tracin import TracInAttributor
            from dattri.params.projection import TracInProjectionParams
            return TracInAttributor(
                task=t, weight_list=[1.0 - 0.3 * i for i in range(c["n_ckpt"])],
                normalized_grad=False, layer_name=c["layers"],
                proj_params=TracInProjectionParams(**c["proj"]))
        if m.startswith("trak"):
            from checks.p06 import prob_func
            from dattri.algorithm.trak import TRAKAttributor
            from dattri.params.projection import TRAKProjectionParams
            pc = dict(c, pshape="vec" if c["vec"] else "scalar")
            return TRAKAttributor(
                task=t, correct_probability_func=self.wrap(
                    prob_func(pc, self.model)),
                proj_params=TRAKProjectionParams(**c["proj"]),
                layer_name=c["layers"], regularization=c["reg"])
        if m == "dot":
            return own_method()(task=t, layer_name=c["layers"])
        if m in IF:
            from dattri.algorithm import influence_function as I
            if m == "explicit":
                return I.IFAttributorExplicit(
                    task=t, layer_name=c["layers"], regularization=c["reg"])
            if m == "cg":
                return I.IFAttributorCG(
                    task=t, layer_name=c["layers"], regularization=c["reg"],
                    mode=c["mode"], max_iter=self._size() + 4, tol=1e-9)
            if m == "lissa":
                return I.IFAttributorLiSSA(
                    task=t, layer_name=c["layers"], mode=c["mode"],
                    recursion_depth=5, scaling=10.0, damping=0.1,
                    num_repeat=2, batch_size=50)
            if m == "arnoldi":
                return I.IFAttributorArnoldi(
                    task=t, layer_name=c["layers"], proj_dim=c["k"],
                    max_iter=60, regularization=c["reg"], seed=c["aseed"])
            return I.IFAttributorDataInf(
                task=t, layer_name=c["layers"], regularization=c["reg"])
        if m == "ekfac":
            from dattri.algorithm.influence_function import IFAttributorEKFAC
            return IFAttributorEKFAC(task=t, module_name=c["mods"],
                                     damping=c["reg"])
        if m == "rps":
            from dattri.algorithm.rps import RPSAttributor
            return RPSAttributor(
                task=t, final_linear_layer_name="head", l2_strength=0.3,
                normalize_preactivate=c["norm"], epoch=c["epoch"])
        if m == "knn":
            from dattri.algorithm.data_shapley import KNNShapleyAttributor
            return KNNShapleyAttributor(
                k_neighbors=c["k"],
                distance_func=lambda u, v: (
                    u[0][:, None] - v[0][None]).abs().sum(-1))
        if m == "dvemb":
            from dattri.algorithm.dvemb import DVEmbAttributor
            kw = {}
            if c["norm"]:
                kw["factorization_type"] = "kronecker"
                kw["layer_names"] = c["mods"]
            if not c["noproj"]:
                from dattri.params.projection import DVEmbProjectionParams
                kw["proj_params"] = DVEmbProjectionParams(
                    proj_dim_per_layer=4, proj_seed=c["aseed"],
                    proj_max_batch_size=8)
            return DVEmbAttributor(t, **kw)
        from dattri.algorithm import FactGraSSAttributor, LoGraAttributor
        from dattri.algorithm.block_projected_if.block_projected_if import (
            BlockProjectedIFAttributor)
        from dattri.params.projection import (
            FactGrassProjectionParams, GeneralProjectionParams,
            LoGraProjectionParams)
        kw = {"layer_names": c["mods"], "hessian": c["hessian"],
              "damping": c["reg"], "offload": c["offload"],
              "chunk_size": c["chunk"], "cache_dir": cache_dir or "store"}
        sp = {"proj_dim_per_layer": 4, "proj_seed": c["aseed"],
              "proj_max_batch_size": 8}
        if m == "logra":
            return LoGraAttributor(
                task=t, proj_params=LoGraProjectionParams(**sp), **kw)
        if m == "factgrass":
            return FactGraSSAttributor(
                task=t, proj_params=FactGrassProjectionParams(**sp),
                blowup_factor=4, **kw)
        return BlockProjectedIFAttributor(
            task=t, sparsifier_params=GeneralProjectionParams(
                proj_dim=-1, proj_type="identity"), **kw)

    def _size(self):
        ps = dict(self.model.named_parameters())
        return sum(ps[n].numel()
                   for n in self.c["layers"] or trainable(self.model))

    # ------------------------------------------------------------- calls
    def cache(self, ldr):
        """Cache; for data-value embeddings, run a recorded trajectory."""
        if self.m != "dvemb":
            return self.att.cache(ldr)
        self.model.load_state_dict(self.states[0])
        self.model.eval()  # dropout would make the trajectory random
        i = 0
        for b in ldr:
            self.att.cache_gradients(
                0, tuple(b), torch.arange(i, i + len(b[0])), 0.1 + 0.02 * i)
            i += len(b[0])
            with torch.no_grad():
                for p in self.model.parameters():
                    p.mul_(0.95)
        return self.att.cache()

    def scores(self, tr, te, pos=None):
        """(training, test) scores; ``pos``: cached rows the loader holds."""
        if self.m == "trak":
            return self.att.attribute(test_dataloader=te, train_dataloader=tr)
        if self.m == "trak_cache":
            return self.att.attribute(test_dataloader=te)
        if self.m == "knn":
            return self.att.attribute(tr, te).T
        if self.m == "dvemb":
            return self.att.attribute(te, train_data_indices=pos)
        return self.att.attribute(tr, te)

    def self_scores(self, tr):
        if self.m == "trak_cache":
            return self.att.self_attribute()
        if self.m in BLOCK:
            return self.att.compute_self_attribution()
        return self.att.self_attribute(tr)


def rtol(c, m):
    if m == "cg":
        return 1e-5
    if m in BLOCK:
        return 5e-3  # float32 curvature
    if m in ("arnoldi", "ekfac", "rps"):
        return 1e-5
    return 1e-7


def scale_floor(m):
    return {"cg": 1e-2, "arnoldi": 1e-2, "ekfac": 1e-2, "rps": 1e-1,
            "block": 1e-3, "logra": 1e-3, "factgrass": 1e-3}.get(m, 1e-3)
