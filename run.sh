#!/bin/bash
# bash run.sh <property id> [--replay FILE | --case N]; honours VERIF_SEED and VERIF_TIER
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/venv/mplconfig}"
exec /opt/venv/bin/python -W ignore check.py "$@"
