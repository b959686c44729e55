#!/bin/bash
# check.sh ID quick|thorough : decides one property (see vf/run.py)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 VERIF_TIER="${2:-quick}"
PY=/opt/venv/bin/python
exec $PY -m vf.run "$1" --tier "${2:-quick}" "${@:3}"
