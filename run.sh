#!/bin/bash
# run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--facet NAME]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m vf.driver "$@"
