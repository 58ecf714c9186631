#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE]
here=$(cd "$(dirname "$0")/.." && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec /usr/bin/python3 "$here/lib/driver.py" "$@"
