#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough> | check.sh --replay <file>
D="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
cd "$D" && exec "$PY" -X faulthandler -m pbt.main "$@"
