#!/bin/bash
# usage: check.sh <property-id> | check.sh replay FILE | check.sh all
# Runs one property's check against /repo's current working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PY=/opt/veriftools/pyvenv/bin/python
[ -x "$PY" ] || PY=$(command -v python3-vt) || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
scratch=$(mktemp -d "${TMPDIR:-/tmp}/kvcheck.XXXXXX") || exit 2
# never read stale bytecode of the tree under test
export PYTHONPYCACHEPREFIX="$scratch/pyc" KV_SCRATCH="$scratch" HYPOTHESIS_STORAGE_DIRECTORY="$scratch/hyp"
trap 'rm -rf "$scratch"' EXIT
"$PY" -m kv "$@"
