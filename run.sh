#!/bin/bash
# run.sh ID: runs the check of property ID (VERIF_TIER, VERIF_SEED).
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONWARNINGS
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -B "$here/run.py" "$@"
