#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE] [--section NAME] [--case N]
# Runs the monitors of one property against the working tree of /repo.
cd "$(dirname "$0")" || exit 3
export PYTHONPATH="${SDEPY_TREE:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
unset PYTHONSTARTUP PYTHONWARNINGS
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m vf.main "$@"
