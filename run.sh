#!/bin/bash
# bash run.sh C01 quick|thorough     runs the check of property C01 against /repo's working tree
# bash run.sh replay FILE            reruns a recorded violation
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${RV_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export PYTHONHASHSEED=0 PYTHONUTF8=1 PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ "$1" = setup ]; then
    # nothing to build: richard is pure Python; see that it can be imported from the working tree
    exec "$PY" -W ignore -c 'import rv.lib, sys; print("richard is imported from", list(__import__("richard").__path__))'
fi
exec "$PY" -W ignore -m rv "$@"
