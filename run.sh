#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--replay file]
d=$(cd "$(dirname "$0")" && pwd)
PY=/opt/veriftools/pyvenv/bin/python3
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec "$PY" "$d/harness/driver.py" "$@"
