#!/bin/bash
# check.sh ID [--replay FILE]: runs the check of property ID against /repo.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 \
    OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore -m checks.main "$@"
