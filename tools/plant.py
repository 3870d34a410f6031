"""
Plants the bugs of tools/seeds.py in a scratch copy of /repo, confirms each (applies, builds, passes the stable tests, its demonstration
holds without it and fails with it), writes /verif/seeded/<id>/ and runs the check of its property against the copy.
    python3 tools/plant.py [ID...] [--all-checks]
The demonstrations are Python: the seed gives the text of demo.py.
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONHASHSEED="0", PYTHONUTF8="1")
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO_SH = """#!/bin/bash
# run with the repository as the working directory: 0 if the property holds, 1 if it is broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0 PYTHONUTF8=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec timeout 250 "$PY" -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, timeout=900, env=ENV):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    return r.returncode, r.stdout + r.stderr


def tests(copy):
    env = dict(ENV, PYTHONPATH=copy)
    code, out = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --rootdir={copy} --import-mode=importlib "
                   "-o python_files='*_test.py test.py test_*.py' -W ignore -o junit_family=xunit2 -rA tests", copy, env=env)
    passed = [l.split(" ", 1)[1].split(" - ")[0] for l in out.splitlines() if l.startswith("PASSED ")]
    names = {p.replace("/", ".").replace(".py::", ".") .replace("::", "::") for p in passed}
    missing = [s for s in STABLE if s not in names]
    return missing, out


def plant(seed, checks):
    folder = os.path.join(VERIF, "seeded", seed["id"])
    copy = "/tmp/plant-" + seed["id"] + "/repo"
    top = os.path.dirname(copy)
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    try:
        sh(f"cp -a /repo {copy}", "/")
        for file, old, new in seed["edits"]:
            path = os.path.join(copy, "richard", file)
            text = open(path, newline="").read()
            if text.count(old) != 1:
                return f"edit of {file} matches {text.count(old)} times"
            open(path, "w", newline="").write(text.replace(old, new))
        code, diff = sh("git diff", copy)
        code, out = sh("/opt/venv/bin/python -W ignore -m compileall -q richard >/dev/null; /opt/venv/bin/python -W ignore - <<'E'\nimport pkgutil, importlib, richard\nfor m in pkgutil.walk_packages(richard.__path__, 'richard.'):\n    try: importlib.import_module(m.name)\n    except ImportError as e:\n        if 'richard' in str(e): raise\nE", copy, env=dict(ENV, PYTHONPATH=copy))
        if code:
            return "does not build: " + out[-500:]
        missing, out = tests(copy)
        if missing:
            return "breaks stable tests: " + ", ".join(missing)
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, "patch.diff"), "w").write(diff)
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(folder, "demo.py"), "w").write(seed["demo"].strip() + "\n")
        json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]}, open(os.path.join(folder, "meta.json"), "w"), indent=1)
        code, out = sh("git apply --check " + os.path.join(folder, "patch.diff"), "/repo")
        if code:
            return "patch does not apply: " + out
        code, out = sh("bash " + os.path.join(folder, "demo.sh"), "/repo")
        if code:
            return "the demonstration fails on the unchanged tree: " + out[-800:]
        code, out = sh("bash " + os.path.join(folder, "demo.sh"), copy)
        if code == 0:
            return "the demonstration does not show the bug"
        results = []
        for check in checks or [seed["property"]]:
            code, out = sh(f"bash run.sh {check} quick", VERIF, env=dict(os.environ, RV_REPO=copy, VERIF_SEED="1"))
            hit = code == 1 and f"VIOLATION property={check} " in out
            if hit or not checks:
                line = [l for l in out.splitlines() if l][1:2]
                results.append(f"{check}: {'CAUGHT' if hit else 'missed (exit %d)' % code} {line[0][:150] if hit and line else out[-300:]}")
        return "ok; " + " | ".join(results)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    from seeds import SEEDS
    import seeds2, seeds3, seeds4
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = ["C%02d" % k for k in range(1, 40) if os.path.exists(os.path.join(VERIF, "rv/checks/c%02d.py" % k))] if "--all-checks" in sys.argv else None
    for seed in SEEDS:
        if not args or seed["id"] in args:
            print(seed["id"], seed["property"], plant(seed, checks), flush=True)


if __name__ == "__main__":
    main()
