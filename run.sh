#!/bin/bash
# bash run.sh C01 [--tier quick|thorough] [--replay FILE] [--list]
cd "$(dirname "$0")" || exit 2
export PYTHONPATH=${VERIF_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/mpl_verif}
exec /opt/venv/bin/python -W ignore run.py "$@"
