#!/bin/bash
# Usage: tools/seedtry.sh SEEDID [check ids...]: confirm a seeded change in a
# scratch copy of /repo (tests pass, demo 0 without and non-zero with it) and
# run the named checks against the changed copy.
ID=$1; shift
D=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed_XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
cd "$W/repo" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig
mkdir "$W/d"; cp -a "$D"/. "$W/d"; rm -f "$W"/d/*.diff "$W"/d/meta.json
NUMBA_CACHE_DIR="$W/n0" bash "$W/d/demo.sh" >"$W/o0" 2>&1; R0=$?
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
NUMBA_CACHE_DIR="$W/n1" bash "$W/d/demo.sh" >"$W/o1" 2>&1; R1=$?
[ $R0 = 0 ] || tail -5 "$W/o0"
echo "$ID demo: clean=$R0 patched=$R1: $(tail -1 "$W/o1" | cut -c1-200)"
if [ -z "$SKIPTESTS" ]; then
PYTHONPYCACHEPREFIX="$W/pyc" NUMBA_CACHE_DIR="$W/n2" /opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=importlib --timeout=300 -p no:warnings tests >"$W/o2" 2>&1
echo "$ID tests: $(tail -1 "$W/o2")"
fi
for c in "$@"; do
  MSV_REPO="$W/repo" MSV_EVID="$W/ev" /verif/check "$c" >"$W/oc" 2>&1; RC=$?
  echo "$ID check $c: rc=$RC $(grep -c VIOLATION "$W/oc") $(grep '^#' "$W/oc" | head -1 | cut -c1-160)"
done
