#!/bin/bash
# run.sh <property id>: runs one check in /verif against /repo's working tree.
# Pure Python: nothing to build, the modules are imported from /repo as they are.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VERIF_REPO:-/repo}":"$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -B -m mc.run "$@"
