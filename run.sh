#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [extra runner options]
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=${VERIF_REPO:-/repo} PYTHONWARNINGS=ignore
export MPLBACKEND=agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export FC=gfortran CC=gcc PIP_NO_INDEX=1
unset PYTHONHOME PYTHONSTARTUP
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
exec python lib/runner.py "$id" "$tier" "$@"
