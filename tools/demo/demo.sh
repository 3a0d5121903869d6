#!/bin/bash
# exit 0 if the behaviour is right, non-zero otherwise
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 1
trap 'rm -rf "$S"' EXIT
export TMPDIR="$S" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="$S" NUMBA_CACHE_DIR="$S" NUMBA_DISABLE_JIT=1
exec_py=/opt/venv/bin/python
PYTHONPATH="$D" $exec_py -W ignore "$D/demo.py"
