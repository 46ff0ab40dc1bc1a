#!/bin/bash
# run.sh <property id>  - runs one check against /repo's current tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
exec timeout -k 10 880 "$PY" -W ignore run.py "$@"
