#!/bin/bash
# usage: check.sh ID [--tier quick|thorough] [--replay FILE] [--only scenario,...]
# Runs one check against /repo's current working tree (pure Python: the check
# imports, and so compiles, the tree's source itself; nothing is cached).
cd "$(dirname "$0")" || exit 2
SCRATCH=$(mktemp -d /tmp/vf.XXXXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/mpl" "$SCRATCH/cwd"
if [ -d /opt/vp/cache/mpl ]; then cp -r /opt/vp/cache/mpl/. "$SCRATCH/mpl/" 2>/dev/null; fi
export VF_SCRATCH="$SCRATCH/cwd" MPLBACKEND=Agg MPLCONFIGDIR="$SCRATCH/mpl" \
  PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 \
  PYTHONPATH=/verif TZ=UTC
PYTHONPATH="$(pwd)" /opt/venv/bin/python -W ignore -m vf "$@"
