#!/bin/bash
# check.sh ID [--tier quick|thorough] [--replay FILE]: runs one check against
# the working tree of /repo (sources are imported from there, never copied).
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export VERIF_REPO="$REPO"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
SRC_HASH=$(cat "$REPO"/graphicle/*.py | sha1sum | cut -c1-16)
# numba's cache does not notice changes in called functions: one cache per source tree
export NUMBA_CACHE_DIR="$HERE/.cache/numba-$SRC_HASH"
mkdir -p "$NUMBA_CACHE_DIR" 2>/dev/null || { NUMBA_CACHE_DIR=$(mktemp -d); export NUMBA_CACHE_DIR; }
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$REPO:$HERE" PYTHONHASHSEED=${VERIF_HASHSEED:-0}
export NUMBA_NUM_THREADS=${NUMBA_NUM_THREADS:-4} OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} LANG=C.UTF-8 COLUMNS=200
cd "$HERE" || exit 5
exec "$PY" -W ignore::DeprecationWarning -m mc.run "$@"
