#!/bin/bash
# run.sh PROPERTY [quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg HOME="${HOME:-/root}" LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONPATH
# never run from /repo so that nothing of it is picked up by accident
cd "$here" || exit 2
exec /opt/venv/bin/python "$here/mc/run.py" "$@"
