"""
Runs all checks against each planted bug in seeded/ (in scratch copies of /repo) and writes which checks report it to tools/catches.json.
    python3 tools/cross.py [SCALE]
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scale = sys.argv[1] if len(sys.argv) > 1 else "0.3"
checks = sorted(os.path.basename(f)[:3].upper() for f in glob.glob(VERIF + "/rv/checks/c[0-9]*.py"))
out = VERIF + "/tools/catches.json"
table = json.load(open(out)) if os.path.exists(out) else {}
for folder in sorted(glob.glob(VERIF + "/seeded/*/")):
    name = os.path.basename(folder.rstrip("/"))
    own = json.load(open(folder + "meta.json"))["property"]
    if name in table:
        continue
    work = tempfile.mkdtemp(prefix="cross-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", work + "/repo"], check=True)
        r = subprocess.run(["git", "-C", work + "/repo", "apply", folder + "patch.diff"], capture_output=True, text=True)
        if r.returncode:
            print(name, "does not apply")
            continue
        hits = []
        for check in checks:
            env = dict(os.environ, RV_REPO=work + "/repo", RV_OUT=work, RV_SCALE="1" if check == own else scale, VERIF_SEED="1")
            r = subprocess.run(["bash", "run.sh", check, "quick"], cwd=VERIF, env=env, capture_output=True, text=True)
            if r.returncode == 1 and f"VIOLATION property={check} " in r.stdout:
                hits.append(check)
            elif r.returncode:
                hits.append(check + "?")
        table[name] = {"property": own, "caught_by": hits}
        print(name, own, hits, flush=True)
        json.dump(table, open(out, "w"), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
