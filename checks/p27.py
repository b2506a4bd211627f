"""P27: attribution leaves the user's model, data and random state alone."""
import functools
import random

from pv.core import Result, Sub, Violation
from pv.gen import close, equal, loader, require, set_dtype, st, torch
from pv.zoo import (
    BLOCK, FUNCTIONAL, METHODS, NEEDS_CACHE, NO_CACHE, SELF, Handle, make_task,
    pool, zoo_cases,
)

PROP = "P27"
RULE = (
    "A case is one of 15 attributors on a model in which some parameters "
    "already have accumulated gradients and user hooks, and a history of 1-4 "
    "caching, attribution and self-attribution calls, in some of which the "
    "user's loss, target or distance function raises at a random call. After "
    "every call: stored checkpoints and the loaders' tensors are bitwise "
    "unchanged; the parameters are the same objects with the same trainability "
    "and the same accumulated gradients; the numbers of hooks, and the "
    "gradients of an ordinary training step, are those of an untouched model; "
    "the numpy and python generators are unchanged, and torch's generator too "
    "(the stochastic method may advance it, but not reseed it). A call after a "
    "failed one gives what a fresh attributor gives. Non-trivial: at least two "
    "calls, or a failed one."
)
ASSUMPTIONS = [
    "A task puts the model into evaluation mode and loads checkpoints into it; "
    "parameter values and the mode are not part of this property.",
    "The loaders have their own generators (iterating a loader without one "
    "draws from torch's global generator in any program).",
]


class Boom(Exception):
    pass


@st.composite
def cases(draw, m):
    c = draw(zoo_cases(methods=[m], max_ckpt=2))
    c["n"], c["mt"] = draw(st.integers(2, 5)), draw(st.integers(1, 4))

    def side(n):
        return {"idx": draw(st.lists(st.integers(0, n - 1), min_size=1,
                                     max_size=5)),
                "bs": draw(st.integers(1, 5))}
    c["ops"] = []
    for i in range(draw(st.integers(1, 4))):
        op = draw(st.sampled_from(
            ["attr", "self"] if m in ("tracin", "trak") else ["attr"]
            if m == "knn" else ["cache", "attr", "attr", "self"]))
        if i == 0 and m not in NO_CACHE and (
                m in NEEDS_CACHE or draw(st.integers(0, 3))):
            op = "cache"
        c["ops"].append({"op": op, "tr": side(c["n"]), "te": side(c["mt"]),
                         "fail": draw(st.integers(1, 6))
                         if draw(st.integers(0, 2)) == 0 else 0})
    c["grads"] = draw(st.lists(st.booleans(), min_size=6, max_size=6))
    c["start"] = draw(st.integers(0, 9))
    return c


def mk(c, side, s, keep):
    n = c["n"] if side == "tr" else c["mt"]
    x, y = pool(c, side, n)
    out = loader(x, y, s["bs"], c["kind"], s["idx"])
    out.generator = torch.Generator().manual_seed(1)
    d = out.dataset
    keep.append((d.x, d.x.clone(), d.y, d.y.clone()))
    return out


def perform(c, h, o, tr, te):
    m = h.m
    if o["op"] == "cache":
        return h.cache(tr)
    if o["op"] == "self":
        if m in BLOCK and not h.att.offload_manager.has_ifvp():
            return None
        return h.self_scores(tr)
    if m == "trak_cache":
        return h.scores(None, te)
    if m == "dvemb":
        return h.scores(None, te)
    return h.scores(tr, te)


def hooks(model):
    return [(n, len(m._forward_hooks), len(m._forward_pre_hooks),
             len(m._backward_hooks)) for n, m in model.named_modules()]


def step_grads(c, model):
    """Gradients of an ordinary training step (evaluation mode)."""
    keep = [p.grad for p in model.parameters()]
    for p in model.parameters():
        p.grad = None
    mode = model.training
    model.eval()
    x, _ = pool(c, "te", 3)
    (model(x.to(torch.get_default_dtype())) ** 2).sum().backward()
    out = [None if p.grad is None else p.grad.clone()
           for p in model.parameters()]
    model.train(mode)
    for p, g in zip(model.parameters(), keep):
        p.grad = g
    return out


def check(c):
    import numpy as np

    set_dtype(c)
    m = c["methods"][0]
    box = {"n": 0, "fail": 0}

    def wrap(f):
        @functools.wraps(f)
        def g(*a, **k):
            box["n"] += 1
            if box["n"] == box["fail"]:
                raise Boom
            return f(*a, **k)
        return g

    task, model, states = make_task(c, m, wrap)
    plain = make_task(c, m)[1]
    want_states = [{k: v.clone() for k, v in s.items()} for s in states]
    params = dict(model.named_parameters()) if model is not None else {}
    flags = {n: p.requires_grad for n, p in params.items()}
    mine = {}
    for (n, p), on in zip(params.items(), c["grads"]):
        if on and p.requires_grad:
            p.grad = torch.full_like(p, 0.25)
            mine[n] = p.grad
    called = []
    if model is not None:
        model.head.register_forward_hook(lambda *_: called.append(1) and None)
        count = hooks(model)

    def rng(salt):
        torch.manual_seed(c["start"] + salt)
        np.random.seed(c["start"] + salt)
        random.seed(c["start"] + salt)
        return (torch.get_rng_state(), np.random.get_state(),
                random.getstate())

    before = rng(0)
    h = Handle(c, m, (task, model, states), wrap, cache_dir="store")
    if m == "knn":
        h.att.distance_func = wrap(h.att.distance_func)
    keep = []
    failed, done, tags = False, 0, ["method=" + m]
    cached = None
    for j, o in enumerate(c["ops"]):
        if o["op"] == "self" and m not in SELF or \
                o["op"] == "cache" and m in NO_CACHE or \
                o["op"] != "cache" and m in NEEDS_CACHE and cached is None:
            continue
        # what counts as cached after a failure is left open
        if o["op"] != "cache" and cached is None and failed:
            continue
        tr, te = mk(c, "tr", o["tr"], keep), mk(c, "te", o["te"], keep)
        box["n"], box["fail"] = 0, o["fail"]
        what = "%s: %s (call %d%s)" % (
            m, o["op"], j, ", failing" if o["fail"] else "")
        boom = False
        got = None
        try:
            got = perform(c, h, o, tr, te)
            done += 1
        except Boom:
            boom, failed = True, True
            tags.append("failed")
        box["fail"] = 0
        if o["op"] == "cache":
            cached = None if boom else o["tr"]
        elif cached is None and not boom and m in (
                "explicit", "cg", "lissa", *BLOCK):
            cached = o["tr"]
        # ------------------------------------------------ snapshots
        for k, s in enumerate(states):
            for n, t in s.items():
                equal(t, want_states[k][n], "%s: checkpoint %d %s" % (
                    what, k, n))
        for x, xc, y, yc in keep:
            equal(x, xc, what + ": the data")
            equal(y, yc, what + ": the labels")
        if model is not None:
            now = dict(model.named_parameters())
            require(list(now) == list(params) and all(
                now[n] is params[n] for n in now),
                what + ": the model has other parameters")
            for n, p in now.items():
                require(p.requires_grad == flags[n], "%s: trainability of %s "
                        "changed" % (what, n))
                require(p.grad is mine.get(n), "%s: the accumulated gradient "
                        "of %s was replaced" % (what, n))
                if n in mine:
                    require(bool((p.grad == 0.25).all()), "%s: the accumulated "
                            "gradient of %s changed" % (what, n))
            require(hooks(model) == count, "%s: hooks were %s, now %s" % (
                what, count, hooks(model)))
            plain.load_state_dict(model.state_dict())
            for g, w, n in zip(step_grads(c, model), step_grads(c, plain),
                               now):
                require((g is None) == (w is None), "%s: a training step no "
                        "longer reaches %s" % (what, n))
                if g is not None:
                    close(g, w.double(), what + ": training gradient of " + n)
        a = np.random.get_state()
        require(a[0] == before[1][0] and bool((a[1] == before[1][1]).all())
                and a[2:] == before[1][2:], what + ": numpy's generator changed")
        require(random.getstate() == before[2],
                what + ": python's generator changed")
        after = torch.get_rng_state()
        if m != "lissa":
            require(torch.equal(after, before[0]),
                    what + ": torch's generator changed")
        elif not torch.equal(after, before[0]):
            # advanced, but not to a state that forgets where it started
            rng(0)
            perform(c, h, o, tr, te)
            one = torch.get_rng_state()
            rng(777)
            perform(c, h, o, tr, te)
            require(not torch.equal(one, torch.get_rng_state()),
                    what + ": torch's generator was reseeded")
            tags.append("drawn")
        rng(0)
        # ------------------------------------- recovery after a failure
        if failed and got is not None:
            f = Handle(c, m, cache_dir="fresh%d" % j)
            if cached is not None and m not in NO_CACHE:
                f.cache(mk(c, "tr", cached, keep))
            want = perform(c, f, o, tr, te)
            close(got, want.double(), what + " after a failed call",
                  rtol=1e-6, scale=max(float(want.abs().max()), 1e-6))
            tags.append("recovered")
            rng(0)
    if not done and not failed:
        return Result(False, ["nothing to do"])
    return Result(done >= 2 or failed, sorted(set(tags)))


SUBS = [Sub("snapshots-" + m, cases(m), check, quick=60, thorough=2500,
            shards=1) for m in METHODS]
_ = (FUNCTIONAL, Violation)
