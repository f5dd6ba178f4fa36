#!/bin/bash
# bash check.sh <property> [options]; see sim/main.py
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 TZ=UTC PYTHONPATH= OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 \
  "$PY" -W ignore -m sim.main "$@"
