#!/bin/bash
# run.sh PROPERTY [quick|thorough]
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION=${PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION:-}
[ -z "$PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION" ] && unset PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION
unset PYTHONPATH
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python check.py "$1" --tier "${2:-quick}"
