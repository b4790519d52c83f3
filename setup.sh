#!/bin/bash
# nothing to build: the checks import /repo's working tree directly; verify that this works
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence/replays"
cd "$here" && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_CACHE_DIR="${TMPDIR:-/tmp}/verif-numba" PYTHONPATH="$here:${VERIF_REPO:-/repo}" /opt/venv/bin/python -W ignore -c "import pyproximal, mc.catalog; print(pyproximal.__file__)"
