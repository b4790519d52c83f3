#!/bin/bash
# usage: run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_CACHE_DIR="${TMPDIR:-/tmp}/verif-numba" MPLBACKEND=Agg
export PYTHONPATH="$here:$repo"
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m mc.core "$@"
