"""Try planted bugs: tools/seed.py [--no-tests] [--no-check] [--only-demo] ID...

Each bug is applied to a scratch copy of /repo that is mounted over /repo in
a private mount namespace, so /repo itself is never changed.
"""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parent.parent
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def inside(scratch, command, timeout=1000):
    script = ("mount --bind %s/repo /repo && mount --bind %s/evidence "
              "%s/evidence && %s" % (scratch, scratch, ROOT, command))
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", script],
                       capture_output=True, text=True, timeout=timeout,
                       check=False)
    return p.returncode, p.stdout + p.stderr


def attempt(sid, flags):
    folder = ROOT / "seeded" / sid
    meta = json.load(open(folder / "meta.json"))
    scratch = tempfile.mkdtemp(prefix="seed.")
    out = [sid, meta["property"]]
    try:
        shutil.copytree("/repo", scratch + "/repo", symlinks=True)
        os.mkdir(scratch + "/evidence")
        shutil.copytree(folder, scratch + "/demo")
        for f in ("patch.diff", "meta.json"):
            os.unlink(scratch + "/demo/" + f)
        demo = "cd /repo && bash %s/demo/demo.sh" % scratch
        rc, text = inside(scratch, demo)
        out.append("clean demo %d" % rc)
        if rc:
            out.append("BAD " + text[-800:])
        p = subprocess.run(["git", "-C", scratch + "/repo", "apply",
                            str(folder / "patch.diff")],
                           capture_output=True, text=True, check=False)
        if p.returncode:
            out.append("BAD patch " + p.stderr)
            return out
        rc, text = inside(scratch, demo)
        out.append("bug demo %d (%s)" % (rc, text.strip().split("\n")[-1][:150]))
        if not rc:
            out.append("BAD demo passes")
        if "--only-demo" in flags:
            return out
        rc, text = inside(scratch, "bash /opt/vp/build.sh")
        if rc:
            out.append("BAD build " + text[-300:])
        if "--no-check" not in flags:
            props = [meta["property"]]
            props += [f[7:] for f in flags if f.startswith("--also=")]
            for prop in props:
                rc, text = inside(scratch, "VERIF_SEED=1 VERIF_TIER=quick timeout 900 "
                                  "%s/run.sh %s --tier quick" % (ROOT, prop))
                hit = re.findall(r"VIOLATION property=%s .*" % prop, text)
                out.append("%s check %d %s" % (prop, rc, hit[:2]))
                if not (rc == 1 and hit):
                    out.append("MISSED")
        if "--no-tests" not in flags:
            res = scratch + "/o.json"
            inside(scratch, "bash /opt/vp/test.sh " + res)
            lost = STABLE - set(json.load(open(res))["passed"])
            out.append("tests lost %s" % sorted(lost)[:5])
            if lost:
                out.append("BAD tests")
    finally:
        shutil.rmtree(scratch)
    return out


def main():
    flags = [a for a in sys.argv[1:] if a.startswith("--")]
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = ids or sorted(p.name for p in (ROOT / "seeded").iterdir())
    with ThreadPoolExecutor(2) as pool:
        for out in pool.map(lambda s: attempt(s, flags), ids):
            print(" | ".join(out), flush=True)


if __name__ == "__main__":
    main()
