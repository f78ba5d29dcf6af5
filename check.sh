#!/bin/bash
# check.sh <property> <quick|thorough>     decide one property
# check.sh replay <file>                   replay one recorded violation
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
ulimit -c 0
if [ "$1" = replay ]; then
    exec /opt/venv/bin/python -m sim.run --replay "$2"
fi
exec /opt/venv/bin/python -m sim.run "$1" --tier "${2:-quick}" "${@:3}"
