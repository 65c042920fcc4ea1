#!/bin/bash
# bash /verif/run.sh <PROPERTY> [quick|thorough]   or   ... <PROPERTY> --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="/repo/blueprint/src/python:$here" MPLBACKEND=Agg MPLCONFIGDIR="$scratch"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX="$scratch/pyc"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd /repo/blueprint/src/python || exit 3
/opt/venv/bin/python -W ignore "$here/mc/main.py" "$@"
