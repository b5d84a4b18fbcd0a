#!/bin/bash
# usage: run.sh <property id> [--replay FILE]      (tier: $VERIF_TIER, seed: $VERIF_SEED)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin HOME=/root LANG=C.UTF-8
export PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
# never read a stale .pyc of the code under test
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONHASHSEED=$(( ${VERIF_SEED:-1} % 4294967295 ))
exec /opt/venv/bin/python -B -W ignore run_check.py "$@"
