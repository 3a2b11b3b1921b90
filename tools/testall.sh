#!/bin/bash
# full suite of /repo (or $1) with the sklearn stand-in, run in a scratch copy
src=${1:-/repo}
d=$(mktemp -d /tmp/vtest.XXXX); cp -a "$src/." "$d"; cd "$d" || exit 2
export HOME=/root TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
PYTHONPATH=/verif/mc/stubs timeout 850 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --basetemp="$d/.tmp" 2>&1 | grep -E "^(FAILED|ERROR)|passed|failed" 
rm -rf "$d"
