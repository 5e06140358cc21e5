#!/bin/bash
# Decide one property: run.sh <property id>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore HOME="${HOME:-/root}"
unset DISPLAY
exec /opt/venv/bin/python check.py "$@"
