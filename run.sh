#!/bin/bash
# usage: run.sh <PROPERTY> [--replay FILE]     (tier and seed from VERIF_TIER, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_CACHE_DIR="${NUMBA_CACHE_DIR:-/tmp/vp-numba-cache}"
unset TZ
exec /opt/venv/bin/python -B -m lib.engine "$@"
