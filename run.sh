#!/bin/sh
# run one check: run.sh C04 [options]
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 exec /opt/pypyenv/bin/python -W ignore check.py "$@"
