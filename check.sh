#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE] ...
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} MPLBACKEND=Agg TZ=UTC
export QT_QPA_PLATFORM=offscreen OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 BLOSC_NTHREADS=1
repo=${SIM_REPO:-/repo}
export PATH_TO_POSYDON=$repo/ PATH_TO_POSYDON_DATA=$repo/posydon/unit_tests/_data/ MESA_DIR=$repo/
unset SLURM_ARRAY_JOB_ID SLURM_ARRAY_TASK_ID SLURM_ARRAY_TASK_MIN SLURM_ARRAY_TASK_COUNT SLURM_JOB_ID
export PYTHONPATH=$here
cd "$repo" || exit 2
exec /opt/venv/bin/python -W ignore -m sim.driver "$@"
