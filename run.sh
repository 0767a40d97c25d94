#!/bin/bash
# usage: run.sh <PROPERTY> quick|thorough   |   run.sh <PROPERTY> replay <file>
here="$(cd "$(dirname "$0")" && pwd)"
export RTMON_VERIF="$here" RTMON_REPO="${RTMON_REPO:-/repo}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
export HOME="${HOME:-/root}"
export PYTHONPATH="$RTMON_REPO:$here"
exec /opt/venv/bin/python -m rtmon.main "$@"
