#!/bin/bash
# Nothing to build: checks that what the checks need is there.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VERIF_REPO:-/repo}":"$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -B -c 'import numpy, scipy, pywt, pandas, matplotlib, mc.engine; print("ready")'
