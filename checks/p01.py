"""P01: the task serves the selected checkpoint, whatever was asked before."""
import os

from pv.core import Result, Sub, Violation
from pv.gen import (
    ODD, Net, SEEDS, close, equal, flat_params, loader, make_loss, make_states,
    make_xy, model_specs, ref_grads, ref_model, ref_scalar_fn, require,
    set_dtype, st, torch, trainable, loss_value,
)

PROP = "P01"
RULE = (
    "A case is a random small network, 1-3 random checkpoints (given as state "
    "dicts, files, a single dict, with the default or a custom load function), "
    "separate loss/target functions and a random history of 3-14 requests "
    "(parameters, flat or split; loss/target value; per-sample gradients, for "
    "all or a restricted ordered set of parameters, batched along dim 0 or 1). "
    "Between requests others may change the weights or the mode of the model or "
    "load it through a task of their own. "
    "Every answer is compared with autograd on a private float64 copy of the "
    "requested checkpoint. Non-trivial: at least two checkpoints are requested "
    "and at least one restricted and one unrestricted request are made."
)
ASSUMPTIONS = [
    "A function returned for a checkpoint is used while that checkpoint is the "
    "last one requested (the model object is the working copy of the current "
    "checkpoint).",
    "Checkpoint files are state dicts written by torch.save.",
]

LOSSES = ["ce", "sq", "logit"]


@st.composite
def ops(draw, spec, n_ckpt):
    names = trainable(Net(spec))
    kind = draw(st.sampled_from(
        ["param", "split", "value", "grad", "grad", "tuple", "map"]))
    op = {"op": kind, "ckpt": draw(st.integers(0, n_ckpt - 1)),
          "which": draw(st.sampled_from(["loss", "target"]))}
    if draw(st.booleans()):
        perm = draw(st.permutations(range(len(names))))
        op["names"] = list(perm[:draw(st.integers(1, len(names)))])
        op["as_str"] = len(op["names"]) == 1 and draw(st.booleans())
    else:
        op["names"] = None
    op["dim"] = draw(st.integers(0, 1))
    op["first"] = draw(st.sampled_from(["param", "func"]))
    op["again"] = draw(st.booleans())
    op["shift"] = draw(st.booleans())
    op["scribble"] = draw(st.booleans())
    op["dseed"] = draw(st.integers(0, 50))
    op["n"] = draw(st.integers(1, 3))
    # before the request others use the model the task holds
    op["outside"] = draw(st.sampled_from(
        [None] * 4 + ["weights", "data", "mode", "task"]))
    return op


@st.composite
def cases(draw):
    spec = draw(model_specs(max_hidden=2, odd=ODD))
    if not trainable(Net(spec)):
        spec["frozen"] = []
    n = draw(st.integers(1, 3))
    return {
        "spec": spec, "n_ckpt": n,
        "form": draw(st.sampled_from(
            ["dicts", "dicts", "files"] + (["single"] if n == 1 else []))),
        "custom": draw(st.sampled_from([None, None, "new", "inplace"])),
        "loss": draw(st.sampled_from(LOSSES)),
        "target": draw(st.sampled_from([None, *LOSSES])),
        "kind": draw(st.sampled_from(["list", "dict"])),
        "ops": draw(st.lists(ops(spec, n), min_size=3, max_size=14)),
        "f64": draw(st.integers(0, 3)) > 0,
        # the first checkpoint is the state of the model itself
        "alias": draw(st.integers(0, 2)) == 0,
    }


def outside(task, kind, spec, loss):
    """The model of the task is loaded, trained or used by others."""
    from dattri.task import AttributionTask

    m = task.get_model()
    if kind == "task":
        AttributionTask(loss, m, make_states(dict(spec, seed=spec["seed"] + 3),
                                             1)).get_param(0)
    elif kind == "mode":
        m.train()
    else:
        with torch.no_grad():
            for p in list(m.parameters()) + list(m.buffers()):
                if not p.is_floating_point():
                    p.add_(3)
                elif kind == "data":
                    p.data = p * 0.5 + 1
                else:
                    p.mul_(0.5).add_(1)


def pick(lname, names):
    return None if lname is None else [names[i] for i in lname]


def check(case):
    from dattri.task import AttributionTask

    set_dtype(case)
    dt = torch.get_default_dtype()
    spec, n = case["spec"], case["n_ckpt"]
    model = Net(spec).to(dt)
    states = make_states(spec, n)
    pristine = [{k: v.clone() for k, v in s.items()} for s in states]
    if case["form"] == "files":
        ck = []
        for i, s in enumerate(states):
            torch.save(s, "ck%d.pt" % i)
            ck.append(os.path.abspath("ck%d.pt" % i))
    elif case["form"] == "single":
        ck = states[0]
    else:
        ck = list(states)
        if case["alias"] and n > 1:
            model.load_state_dict(states[0])
            ck[0] = model.state_dict()
    calls = []

    def load_custom(m, c):
        calls.append(1)
        c = torch.load(c) if isinstance(c, str) else c
        if case["custom"] == "new":
            m = Net(spec).to(dt)
        m.load_state_dict(c)
        m.eval()
        return m

    # a user function must see the current model: look it up lazily
    holder = {}

    class Proxy(torch.nn.Module):
        pass

    def user_fn(name):
        def f(params, data):
            if case["kind"] == "dict":
                x, y = data["x_in"], data["lab"]
            else:
                x, y = data
            m = holder["task"].get_model()
            out = torch.func.functional_call(
                m, params, (x.reshape(-1, spec["d"]),))
            return loss_value(name, out, y.reshape(-1))
        return f

    tname = case["target"]
    task = AttributionTask(
        loss_func=user_fn(case["loss"]), model=model, checkpoints=ck,
        target_func=None if tname is None else user_fn(tname),
        checkpoints_load_func=load_custom if case["custom"] else None,
    )
    holder["task"] = task
    require(len(task.get_checkpoints()) == n, "number of checkpoints changed")
    names = trainable(Net(spec))
    refs = [ref_model(spec, k) for k in range(n)]
    seen, restricted, full = set(), 0, 0
    kept, out_kinds = [], set()
    for j, op in enumerate(case["ops"]):
        k = op["ckpt"]
        seen.add(k)
        if op["outside"]:
            outside(task, op["outside"], spec, user_fn(case["loss"]))
            out_kinds.add("outside=" + op["outside"])
        sel = pick(op["names"], names)
        if sel is None:
            full += 1
        else:
            restricted += 1
        arg = sel[0] if (sel and op.get("as_str")) else (
            list(sel) if sel else None)
        used = sel or names
        what = "request %d (%s, checkpoint %d, %s)" % (
            j, op["op"], k, "all" if sel is None else ",".join(sel))
        want_p = flat_params(refs[k], used)
        if op["op"] == "param":
            p, m = task.get_param(k, layer_name=arg)
            require(m is None, what + ": unexpected layer map")
            close(p, want_p, what + " parameters", rtol=1e-6)
            if op["scribble"]:
                with torch.no_grad():
                    p.mul_(3).add_(1)
            else:
                kept.append((what, p, want_p))
            continue
        if op["op"] in ("split", "map"):
            pd = dict(refs[k].named_parameters())
            if op["op"] == "map":
                mp = list(range(len(used)))
                tup, m = task.get_param(k, layer_name=arg, layer_split=True,
                                        param_layer_map=mp)
                require(list(m) == mp, what + ": explicit map not returned")
                try:
                    task.get_param(k, layer_name=arg, layer_split=True,
                                   param_layer_map=mp + [0])
                except ValueError:
                    pass
                else:
                    raise Violation(what + ": wrong map length accepted")
            else:
                tup, m = task.get_param(k, layer_name=arg, layer_split=True)
                want_m, cur, prev = [], -1, None
                for nm in used:
                    mod = nm.rsplit(".", 1)[0]
                    if mod != prev:
                        cur, prev = cur + 1, mod
                    want_m.append(cur)
                require(list(m) == want_m,
                        "%s: layer map %s, expected %s" % (what, m, want_m))
            require(len(tup) == len(used), what + ": number of pieces")
            for nm, t in zip(used, tup):
                w = pd[nm].detach().reshape(-1)
                close(t, w, what + " piece " + nm, rtol=1e-6)
                if op.get("scribble"):
                    with torch.no_grad():
                        t.mul_(3).add_(1)
                else:
                    kept.append((what, t, w))
            continue
        lname = case["loss"] if (op["which"] == "loss" or tname is None) \
            else tname
        x, y = make_xy(op["n"], spec["d"], spec["c"], op["dseed"])

        def get_func():
            if op["op"] in ("value", "tuple"):
                g = task.get_loss_func if op["which"] == "loss" \
                    else task.get_target_func
                return g(layer_name=arg, ckpt_idx=None if arg is None else k) \
                    if op["op"] == "value" else g()
            g = task.get_grad_loss_func if op["which"] == "loss" \
                else task.get_grad_target_func
            return g(in_dims=(None, op["dim"]), layer_name=arg,
                     ckpt_idx=None if arg is None else k)

        if op["first"] == "func" and arg is not None:
            f = get_func()
            p, _ = task.get_param(k, layer_name=arg)
        else:
            p, _ = task.get_param(k, layer_name=arg)
            f = get_func()
        p = p.detach()
        close(p, want_p, what + " parameters", rtol=1e-6)
        if op["op"] == "tuple":
            # the function also takes the full parameters split by tensor
            tup, _ = task.get_param(k, layer_split=True)
            p = tuple(t.detach() for t in tup)
            fn, th = ref_scalar_fn(spec, k, lname, x, y, names)
        else:
            fn, th = ref_scalar_fn(spec, k, lname, x, y, used)
        if op["shift"]:
            # the function evaluates at the parameters it is given
            g = torch.Generator().manual_seed(op["dseed"])
            d = torch.randn(th.shape, generator=g, dtype=torch.float64) * 0.3
            th = th + d
            if op["op"] == "tuple":
                out, i = [], 0
                for t in p:
                    out.append(t + d[i:i + t.numel()].to(dt))
                    i += t.numel()
                p = tuple(out)
            else:
                p = p + d.to(dt)
        x_in, y_in = x.to(dt), y
        for rep in range(2 if op["again"] else 1):
            if rep:
                f = get_func()
            if op["op"] == "grad":
                d0, d1 = (x_in, y_in) if op["dim"] == 0 else (
                    x_in.unsqueeze(0), y_in.unsqueeze(0))
                data = {"x_in": d0, "lab": d1} if case["kind"] == "dict" \
                    else (d0, d1)
                want = []
                for i in range(op["n"]):
                    fi, _ = ref_scalar_fn(spec, k, lname, x[i:i + 1],
                                          y[i:i + 1], used)
                    t = th.clone().requires_grad_(True)
                    want.append(torch.autograd.grad(
                        fi(t) + 0 * t.sum(), t)[0])
                close(f(p, data), torch.stack(want), what + " gradient")
            else:
                data = {"x_in": x_in, "lab": y_in} if case["kind"] == "dict" \
                    else (x_in, y_in)
                close(f(p, data).reshape(()), fn(th).detach().reshape(()),
                      what + " value")
    for what, p, w in kept:
        close(p, w, what + ": answer changed by later requests", rtol=1e-6)
    for i, (s, o) in enumerate(zip(states, pristine)):
        for nm in s:
            equal(s[nm], o[nm], "caller's checkpoint %d entry %s" % (i, nm))
    tags = ["form=" + case["form"], "kind=" + case["kind"]]
    tags += sorted(out_kinds)
    if case["alias"] and n > 1:
        tags.append("alias")
    if case["custom"]:
        tags.append("custom=" + case["custom"])
    return Result(len(seen) > 1 and restricted and full, tags)


SUBS = [Sub("history", cases(), check, quick=4800, thorough=60000, shards=8)]
