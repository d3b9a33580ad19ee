#!/bin/bash
# check.sh PROPERTY quick|thorough | check.sh PROPERTY replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH=/repo:"$PWD" HOME="${HOME:-/root}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m mon.main "$@"
