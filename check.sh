#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
prop=$1; shift
tier=${1:-quick}; shift
exec /opt/venv/bin/python -m mc "$prop" --tier "$tier" "$@"
