#!/bin/sh
# run.sh PROPERTY [tier]: run one check with the interpreter of the project
here=$(cd "$(dirname "$0")" && pwd)
OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/run.py" "$@"
