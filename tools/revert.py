"""
Reverts each repair in a scratch copy of /repo, and runs the check of its property, which must report it.
    python3 tools/revert.py [SCALE]
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scale = sys.argv[1] if len(sys.argv) > 1 else "1"
for entry in json.load(open(VERIF + "/known_findings.json"))["fixed"]:
    pid, commit, what = re.match(r"fixed: property=(\w+) (\w+) (.*)", entry).groups()
    work = tempfile.mkdtemp(prefix="revert-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", work + "/repo"], check=True)
        r = subprocess.run(["git", "-C", work + "/repo", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", commit], capture_output=True, text=True)
        if r.returncode:
            print(pid, commit, "CONFLICT", what)
            continue
        env = dict(os.environ, RV_REPO=work + "/repo", RV_OUT=work, RV_SCALE=scale)
        r = subprocess.run(["bash", "run.sh", pid, "quick"], cwd=VERIF, env=env, capture_output=True, text=True)
        print(pid, commit, "caught" if r.returncode == 1 else f"MISSED ({r.returncode})", what, flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
