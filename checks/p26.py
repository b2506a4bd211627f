"""P26: results depend only on the last cached data, not on call history."""
from pv.core import Result, Sub, Violation
from pv.gen import close, set_dtype, st, torch
from pv.zoo import (
    BLOCK, FUNCTIONAL, METHODS, NO_CACHE, SELF, STICKY, Handle, ld, make_task,
    zoo_cases,
)

PROP = "P26"
RULE = (
    "A case is one attributor of 16 methods, or two attributors of functional "
    "methods sharing one task, and a history of 3-8 operations: caching one of "
    "several data sets, attributing a training and a test loader, "
    "self-attribution, and others changing the weights or mode of the model. Every attribution must give the scores (or the same kind "
    "of refusal) of a fresh attributor with its own task that was given the "
    "latest cached data, if any, and that call alone. Non-trivial: an "
    "attribution that succeeds after at least two earlier operations, one of "
    "them with other data."
)
ASSUMPTIONS = [
    "Influence-function and block-projected attributors announce that without "
    "cached data the first training data attributed is treated as cached.",
]


@st.composite
def side(draw, n):
    idx = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6))
    return {"n": n, "idx": idx, "bs": draw(st.integers(1, 6))}


@st.composite
def cases(draw, share, m=None):
    c = draw(zoo_cases(methods=[m] if m else None, share=share, max_ckpt=2))
    n, m = draw(st.integers(2, 6)), draw(st.integers(1, 4))
    c["n"], c["mt"] = n, m
    c["ops"] = []
    for _ in range(draw(st.integers(3, 8 if share == 1 else 7))):
        op = draw(st.sampled_from(
            ["cache", "attr", "attr", "self", "outside"]))
        c["ops"].append({
            "h": draw(st.integers(0, share - 1)), "op": op,
            "tr": draw(side(n)), "te": draw(side(m)),
            # TRAK takes training data either here or from the cache
            "give": draw(st.booleans()),
            # what others do with the model
            "kind": draw(st.sampled_from(["weights", "step", "mode", "task"]))})
    c["alias"] = draw(st.integers(0, 3)) == 0
    c["load"] = None
    sp = c["spec"]
    if draw(st.integers(0, 2)) == 0:
        # a loading function of the user, which may return another model
        c["load"] = draw(st.sampled_from(["same", "new", "lazy"]))
        if c["load"] != "same" and c["methods"][0] in FUNCTIONAL and (
                sp["frozen"] or sp["buffer"]):
            c["load"] = "same"
    # most histories of the methods that need it begin with cached data
    if draw(st.integers(0, 3)):
        c["ops"] = [{"h": h, "op": "cache", "tr": draw(side(n)),
                     "te": draw(side(m)), "give": True, "kind": None}
                    for h in range(share)] + c["ops"]
    return c


def perform(c, h, o, tr=None):
    """Outcome of an operation: a tensor or the kind of refusal."""
    T = ld(c, "te", c["mt"], o["te"]["idx"], o["te"]["bs"])
    m = h.m
    try:
        if o["op"] == "self":
            if m.startswith("trak"):
                return h.att.self_attribute(tr) if o["give"] \
                    else h.att.self_attribute()
            return h.self_scores(tr)
        if m.startswith("trak"):
            if o["give"]:
                return h.att.attribute(test_dataloader=T, train_dataloader=tr)
            return h.att.attribute(test_dataloader=T)
        return h.scores(tr, T)
    except (ValueError, AttributeError, TypeError, RuntimeError,
            AssertionError, KeyError) as e:
        return e


def outside(c, h, kind):
    """The model of a task is used, loaded or trained by others."""
    model = h.task.get_model()
    if kind == "task":
        from dattri.task import AttributionTask
        from pv.gen import make_states
        other = AttributionTask(
            loss_func=h.task.original_loss_func, model=model,
            checkpoints=make_states(dict(c["spec"], seed=c["spec"]["seed"] + 1), 1))
        other.get_param(0)
    elif kind == "mode":
        model.train()
    elif kind == "weights":
        model.load_state_dict({
            k: v * 0.5 + 1 if v.is_floating_point() else v + 3
            for k, v in model.state_dict().items()})
    else:
        model.train()
        opt = torch.optim.SGD(model.parameters(), lr=0.5)
        for p in model.parameters():
            p.grad = torch.ones_like(p)
        opt.step()
        opt.zero_grad()


def check(c):
    set_dtype(c)
    ms = c["methods"]
    shared = make_task(c, ms[0], alias=c["alias"], load=c["load"]) \
        if len(ms) > 1 or c["alias"] or c["load"] else None
    hs = [Handle(c, m, shared, cache_dir="store%d" % i)
          for i, m in enumerate(ms)]
    cached = [None] * len(hs)
    before = [0] * len(hs)
    tags = ["load=" + c["load"]] if c["load"] else []
    good, fresh_n, tags = False, 0, [*tags, "methods=%d" % len(ms)]
    total = 0
    for o in c["ops"]:
        h, m = hs[o["h"]], ms[o["h"]]
        total += 1
        if o["op"] == "self" and m not in SELF:
            continue
        if o["op"] == "cache" and m in (NO_CACHE - {"trak"}):
            continue
        if o["op"] == "outside":
            if m not in ("knn", "dvemb"):
                outside(c, h, o["kind"])
                tags.append("outside=" + o["kind"])
                before[o["h"]] += 1
            continue
        tr = ld(c, "tr", c["n"], o["tr"]["idx"], o["tr"]["bs"])
        if o["op"] == "cache":
            h.cache(tr)
            cached[o["h"]] = o["tr"]
            before[o["h"]] += 1
            continue
        f = Handle(c, m, cache_dir="fresh%d" % fresh_n)
        fresh_n += 1
        cur = cached[o["h"]]
        if cur is not None:
            f.cache(ld(c, "tr", c["n"], cur["idx"], cur["bs"]))
        want = perform(c, f, o, ld(c, "tr", c["n"], o["tr"]["idx"],
                                   o["tr"]["bs"]))
        got = perform(c, h, o, tr)
        what = "%s: %s as operation %d of the history" % (m, o["op"], total)
        if isinstance(want, Exception) or isinstance(got, Exception):
            if type(want) is not type(got):
                raise Violation("%s gives %r, a fresh attributor %r" % (
                    what, got, want))
            tags.append("refused=" + m)
        else:
            if not want.isfinite().all():
                raise Violation(what + ": not finite")
            close(got, want.double(), what, rtol=1e-6,
                  scale=max(float(want.abs().max()), 1e-6))
            if before[o["h"]] >= 1 and total > 2:
                good = True
                tags.append("method=" + m)
            if cur is None and m in STICKY and not (
                    m in BLOCK and o["op"] == "self"):
                cached[o["h"]] = o["tr"]
        before[o["h"]] += 1
    return Result(good, sorted(set(tags)))


SUBS = [
    Sub("single-" + m, cases(1, m), check, quick=48, thorough=1500, shards=1)
    for m in METHODS
] + [Sub("shared", cases(2), check, quick=120, thorough=6000, shards=4)]
