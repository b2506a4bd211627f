"""Runner: generated-case search, shrinking, replay files, evidence.

A check module (checks/pXX.py) defines

  PROP   the property id
  TITLE  short text
  RULE   how cases are made and what makes one non-trivial
  SUBS   list of Sub

A Sub has a Hypothesis strategy producing a JSON-able case and a function
``check(case)`` which runs the real code on the case and compares it with the
oracle. It raises Violation when the property is broken and returns a Result
(non-trivial flag + tags) otherwise.

Outcome rules: only an oracle failure, or an exception that passes through the
code of /repo on an input in the property's domain, is a violation. Any other
exception is a harness error (exit 3).
"""

from __future__ import annotations

import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("DATTRI_REPO", "/repo"))
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
# tools/mutate.py only wants to know whether a check fails
NO_SHRINK = bool(os.environ.get("PV_NO_SHRINK"))
CASE_ALARM_S = 60 if NO_SHRINK else 240


class Violation(Exception):
    """The code under test broke the property."""


class Result:
    __slots__ = ("nontrivial", "tags")

    def __init__(self, nontrivial=True, tags=()):
        self.nontrivial = bool(nontrivial)
        self.tags = tuple(tags)


class Sub:
    """One generated-input search, with its oracle."""

    def __init__(self, name, strategy, check, quick, thorough=None, shards=1,
                 thorough_shards=None, probe_for=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.thorough_shards = thorough_shards or max(shards, NPROC)
        # a probe replays one recorded finding (known_findings.json)
        self.probe_for = probe_for


class _Hang(Exception):
    pass


def _alarm(_sig, _frm):
    raise _Hang("the case did not terminate within %d s" % CASE_ALARM_S)


def _through_repo(exc) -> bool:
    """Whether the exception passed through the code under test."""
    tb = exc.__traceback__
    root = str(REPO / "dattri") + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def _last_repo_frame(exc) -> str:
    tb = exc.__traceback__
    root = str(REPO) + os.sep
    where = ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(root):
            where = "%s:%d in %s" % (fn[len(root):], tb.tb_lineno,
                                     tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return where


@contextlib.contextmanager
def scratch_cwd():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="pvcase_")
    os.chdir(d)
    try:
        yield pathlib.Path(d)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def reset_global_state():
    """Every case starts from the same global state."""
    import numpy as np
    import torch

    torch.set_default_dtype(torch.float32)
    torch.manual_seed(12345)
    np.random.seed(12345)
    random.seed(12345)


WRONG_KIND = (AttributeError, TypeError, IndexError, KeyError, ValueError,
              RuntimeError, ArithmeticError)


def run_case(sub: Sub, case) -> Result:
    """Run one case; raises Violation for anything that counts as broken."""
    reset_global_state()
    sink = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_ALARM_S)
    try:
        with scratch_cwd(), warnings.catch_warnings(), \
                contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            warnings.simplefilter("ignore")
            res = sub.check(case)
    except Violation:
        raise
    except _Hang as e:
        raise Violation(str(e)) from e
    except Exception as e:
        if _through_repo(e):
            raise Violation(
                "raised %s: %s [%s]" % (type(e).__name__, str(e)[:300],
                                        _last_repo_frame(e)),
            ) from e
        if isinstance(e, WRONG_KIND):
            # a result of another type or shape than documented
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            raise Violation("the result cannot be judged: %s: %s [%s:%d]" % (
                type(e).__name__, str(e)[:300],
                os.path.basename(tb.tb_frame.f_code.co_filename),
                tb.tb_lineno)) from e
        raise
    finally:
        signal.alarm(0)
        reset_global_state()
    return res if isinstance(res, Result) else Result()


def _key(case) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def load_hypothesis():
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        sys.path.append(p)
        try:
            import hypothesis  # noqa: F401
            import hypothesis.stateful  # noqa: F401
            import sortedcontainers  # noqa: F401
        finally:
            sys.path.remove(p)
    import hypothesis
    return hypothesis


def _run_shard(sub: Sub, n_examples, seed, deadline, out_path):
    """Runs in a child process; writes a JSON outcome to out_path."""
    hyp = load_hypothesis()
    from hypothesis import HealthCheck, Phase, given, settings

    st = {
        "evals": 0, "nontrivial": {}, "tags": {}, "samples": [],
        "skipped_after_deadline": 0, "fail": None, "harness_error": None,
    }
    best = {}
    fail_t = [None]

    class HarnessError(Exception):
        pass

    @hyp.seed(seed)
    @settings(
        max_examples=n_examples, database=None, deadline=None,
        report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.explicit, Phase.generate) + (
            () if NO_SHRINK else (Phase.shrink,)),
    )
    @given(sub.strategy)
    def prop(case):
        k = _key(case)
        now = time.time()
        if fail_t[0] is not None and now - fail_t[0] > 45 and k not in best:
            return  # shrink budget used: keep the smallest failure found
        if fail_t[0] is None and now > deadline:
            st["skipped_after_deadline"] += 1
            return
        st["evals"] += 1
        try:
            r = run_case(sub, case)
        except Violation as v:
            if fail_t[0] is None:
                fail_t[0] = now
            best[k] = (case, str(v))
            st["fail"] = {"case": case, "message": str(v)}
            raise
        except Exception as e:  # noqa: BLE001
            raise HarnessError(
                "case %s\n%s" % (json.dumps(case), traceback.format_exc())) from e
        for t in r.tags:
            st["tags"][t] = st["tags"].get(t, 0) + 1
        if r.nontrivial and k not in st["nontrivial"]:
            st["nontrivial"][k] = 1
            if len(st["samples"]) < 2:
                st["samples"].append(case)

    devnull = io.StringIO()
    try:
        with contextlib.redirect_stdout(devnull), contextlib.redirect_stderr(devnull):
            prop()
    except HarnessError as e:
        st["harness_error"] = str(e)
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if st["fail"] is None:
            st["harness_error"] = traceback.format_exc()
        else:
            st["note"] = "%s" % type(e).__name__
    st["nontrivial"] = list(st["nontrivial"])
    pathlib.Path(out_path).write_text(json.dumps(st))


def _child(sub, n, seed, deadline, out_path):
    try:
        sys.setrecursionlimit(5000)
        _run_shard(sub, n, seed, deadline, out_path)
    except BaseException:  # noqa: BLE001
        pathlib.Path(out_path).write_text(
            json.dumps({"harness_error": traceback.format_exc()}))
    finally:
        os._exit(0)


def known_findings():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return {}
    d = json.loads(p.read_text())
    return {f["id"]: f for f in d.get("findings", [])}


def _prepare_env():
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(REPO))
    import logging

    logging.disable(logging.CRITICAL)
    import torch

    torch.set_num_threads(1)
    import dattri

    if not str(pathlib.Path(dattri.__file__).resolve()).startswith(
            str(REPO.resolve())):
        raise RuntimeError("dattri imported from %s" % dattri.__file__)


def main(argv):
    t0 = time.time()
    prop_id = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    it = iter(argv[1:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--replay":
            replay = next(it)
        elif a == "--only":
            only = next(it)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    _prepare_env()
    load_hypothesis()
    sys.path.insert(0, str(VERIF))
    try:
        mod = importlib.import_module("checks." + prop_id.lower())
    except Exception as e:
        traceback.print_exc()
        print("HARNESS-ERROR cannot import check: %s" % e)
        return 3
    subs = {s.name: s for s in mod.SUBS}

    if replay:
        rec = json.loads(pathlib.Path(replay).read_text())
        try:
            run_case(subs[rec["sub"]], rec["case"])
        except Violation as v:
            print("replayed: %s" % v)
            print("VIOLATION property=%s replay=%s" % (prop_id, replay))
            return 1
        print("replay: the property holds on this case")
        return 0

    total_deadline = t0 + (780 if tier == "quick" else
                           float(os.environ.get("VERIF_THOROUGH_S", "5400")))
    gen_deadline = t0 + (600 if tier == "quick" else
                         float(os.environ.get("VERIF_THOROUGH_S", "5400")) * 0.9)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="pv_%s_" % prop_id))
    jobs = []
    for s in mod.SUBS:
        if only and s.name != only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        shards = s.shards if tier == "quick" else s.thorough_shards
        if s.probe_for:
            n, shards = 1, 1
        shards = max(1, min(shards, n))
        for i in range(shards):
            h = hashlib.sha1(("%d/%s/%d" % (seed, s.name, i)).encode()).hexdigest()
            jobs.append({"sub": s, "n": -(-n // shards), "i": i,
                         "seed": int(h[:8], 16),
                         "out": tmp / ("%s_%d.json" % (s.name, i))})
    # longest first keeps the pool busy
    jobs.sort(key=lambda j: -j["n"])
    ctx = multiprocessing.get_context("fork")
    running, pending, done = [], list(jobs), []
    failed_at = None
    while pending or running:
        while pending and len(running) < NPROC and failed_at is None:
            j = pending.pop(0)
            p = ctx.Process(target=_child, args=(
                j["sub"], j["n"], j["seed"], gen_deadline, str(j["out"])))
            p.start()
            j["proc"] = p
            running.append(j)
        if failed_at is not None:
            pending = []
        time.sleep(0.05)
        for j in list(running):
            if not j["proc"].is_alive():
                j["proc"].join()
                running.remove(j)
                done.append(j)
                with contextlib.suppress(Exception):
                    o = json.loads(j["out"].read_text())
                    if o.get("fail") and not j["sub"].probe_for and failed_at is None:
                        failed_at = time.time()
        now = time.time()
        if now > total_deadline or (
                failed_at and now - failed_at > (0.2 if NO_SHRINK else 20)):
            for j in running:
                j["proc"].kill()
                j["killed"] = True
    evals = 0
    nontrivial = 0
    tags, samples, per_sub = {}, [], {}
    violations, harness_errors, notes = [], [], []
    skipped = 0
    kf = known_findings()
    for j in done:
        s = j["sub"]
        try:
            o = json.loads(j["out"].read_text())
        except Exception:
            if j.get("killed"):
                notes.append("shard %s/%d stopped" % (s.name, j["i"]))
            else:
                harness_errors.append("shard %s/%d died (exit %s)" % (
                    s.name, j["i"], j["proc"].exitcode))
            continue
        if o.get("harness_error"):
            harness_errors.append("[%s] %s" % (s.name, o["harness_error"]))
            continue
        evals += o["evals"]
        per = per_sub.setdefault(s.name, {"evaluations": 0, "distinct": set(),
                                          "tags": {}})
        per["evaluations"] += o["evals"]
        per["distinct"].update(o["nontrivial"])
        for t, c in o["tags"].items():
            per["tags"][t] = per["tags"].get(t, 0) + c
        skipped += o["skipped_after_deadline"]
        if j["i"] == 0:
            samples += [{"sub": s.name, "case": c} for c in o["samples"]]
        if o["fail"]:
            if s.probe_for and s.probe_for in kf:
                print("KNOWN-FINDING: property=%s %s" % (
                    prop_id, kf[s.probe_for]["what"]))
                continue
            prev = [v for v in violations if v[0] == s.name]
            if not prev:
                violations.append((s.name, o["fail"]))
            elif len(json.dumps(o["fail"]["case"])) < len(
                    json.dumps(prev[0][1]["case"])):
                violations[violations.index(prev[0])] = (s.name, o["fail"])
    shutil.rmtree(tmp, ignore_errors=True)
    for name, per in per_sub.items():
        nontrivial += len(per["distinct"])
        per["distinct_nontrivial"] = len(per.pop("distinct"))
    if not (only or os.environ.get("VERIF_NO_EVIDENCE")):
        ev = {
            "property": prop_id, "tier": tier if tier in ("quick", "thorough")
            else "quick", "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": nontrivial,
                "rule": mod.RULE, "samples": samples[:40] or ["none"],
                "per_search": per_sub,
                "cases_skipped_after_time_budget": skipped,
                "notes": notes,
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 1),
            "violations": [
                {"sub": n, "message": f["message"], "case": f["case"]}
                for n, f in violations],
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / ("%s.json" % prop_id)).write_text(
            json.dumps(ev, indent=1))
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (
        prop_id, evals, nontrivial, time.time() - t0))
    for name, per in sorted(per_sub.items()):
        print("  %-28s %6d cases %6d non-trivial  %s" % (
            name, per["evaluations"], per["distinct_nontrivial"],
            " ".join("%s=%d" % kv for kv in sorted(per["tags"].items()))[:200]))
    if violations:
        (VERIF / "evidence" / "replays").mkdir(parents=True, exist_ok=True)
        for name, f in violations:
            rp = VERIF / "evidence" / "replays" / ("%s_%s.json" % (prop_id, name))
            rp.write_text(json.dumps(
                {"property": prop_id, "sub": name, "case": f["case"],
                 "message": f["message"], "seed": seed}, indent=1))
            print("  [%s] %s" % (name, f["message"]))
            print("  case: %s" % json.dumps(f["case"]))
            print("VIOLATION property=%s replay=%s" % (
                prop_id, rp.relative_to(VERIF)))
        return 1
    if harness_errors:
        shown = {}
        for h in harness_errors:
            shown.setdefault(h.strip().splitlines()[-1], h)
        for h in list(shown.values())[:4]:
            print("HARNESS-ERROR %s" % h)
        return 3
    if evals == 0:
        print("HARNESS-ERROR nothing was evaluated")
        return 3
    return 0
