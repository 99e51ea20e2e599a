#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--only SCENARIO] [--replay FILE]
cd "$(dirname "$0")" || exit 2
VERIF_DIR="$PWD"
export PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore NUMBA_NUM_THREADS=1
export PYTHONPATH="${VERIF_REPO:-/repo}:$VERIF_DIR"
export VERIF_DIR
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
