#!/bin/bash
# nothing to compile: check that the interpreter and the repository import
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PYTHONPATH=mc/stubs:/repo /opt/venv/bin/python -c "import resistics.letsgo, numpy; print('ready')"
