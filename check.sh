#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]   or   check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m symx.run "$@"
