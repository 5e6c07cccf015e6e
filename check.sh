#!/bin/bash
# check.sh <PROPERTY> [quick|thorough] [args...]
. /opt/vp/env.sh 2>/dev/null
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}"
id="$1"; shift
case "$1" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python run.py "$id" "$@"
