"""Developer tool: write a planted bug to seeded/<id>/ from a list of text edits (used by hand; no check reads it).

mk(id, prop, [(file, old, new), ...], demo_py, needs, breaks)
"""
import json
import os
import shutil
import subprocess
import tempfile

SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = '''#!/bin/bash
# exit 0: behaviour intact; nonzero: broken
HERE="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 3
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R"
timeout 280 /opt/venv/bin/python -W ignore "$HERE/demo.py" --quiet
'''


def mk(id, prop, edits, demo, needs, breaks):
    d = os.path.join(SEED, id)
    w = tempfile.mkdtemp(prefix="mkbug")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", os.path.join(w, "t")])
        t = os.path.join(w, "t")
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", os.path.join(w, "t")])
        shutil.rmtree(w, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
