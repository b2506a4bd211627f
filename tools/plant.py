"""Write a planted bug: used interactively, plant(sid, prop, edits, ...)."""
import json
import os
import pathlib
import shutil
import subprocess
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent


def plant(sid, prop, edits, needs, breaks, demo):
    folder = ROOT / "seeded" / sid
    folder.mkdir(parents=True, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="plant.")
    try:
        subprocess.run(["git", "clone", "-q", os.environ.get("DATTRI_REPO", "/repo"),
                        scratch + "/r"], check=True)
        for path, old, new in edits:
            f = pathlib.Path(scratch, "r", path)
            text = f.read_text()
            assert text.count(old) == 1, (sid, path, text.count(old), old)
            f.write_text(text.replace(old, new))
        patch = subprocess.run(["git", "-C", scratch + "/r", "diff"], check=True,
                               capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(scratch)
    (folder / "patch.diff").write_text(patch)
    (folder / "meta.json").write_text(json.dumps(
        {"property": prop, "needs": needs, "what_it_breaks": breaks},
        indent=1) + "\n")
    (folder / "demo.sh").write_text(
        "#!/bin/bash\nexport CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1\n"
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (folder / "demo.py").write_text(demo.strip() + "\n")
