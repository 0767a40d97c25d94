#!/bin/bash
here="$(cd "$(dirname "$0")/.." && pwd)"
export RTMON_VERIF="$here" RTMON_REPO="${RTMON_REPO:-/repo}" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg QT_QPA_PLATFORM=offscreen OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
export PYTHONPATH="$RTMON_REPO:$here"
exec /opt/venv/bin/python "$here/tools/dbg.py" "$@"
