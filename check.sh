#!/bin/bash
# usage: check.sh <property> [runner options]; tier from VERIF_TIER, seed from VERIF_SEED
cd "$(dirname "$0")" || exit 2
S=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export VERIF_SCRATCH="$S" PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONNOUSERSITE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
/opt/venv/bin/python -m mon.runner "$@"
