#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough>      run the check
#        check.sh <PROPERTY> replay <FILE>         replay one recorded violation
# Everything the run writes (byte code, numba cache, matplotlib cache) goes to a scratch folder removed at exit.
cd "$(dirname "$0")" || exit 2
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/frmsim.XXXXXX") || exit 2
trap 'case "$SCRATCH" in */frmsim.*) rm -rf "$SCRATCH";; esac' EXIT
export FRM_SIM_SCRATCH="$SCRATCH"
export VERIF_SEED="${VERIF_SEED:-1}"
export PROJECT_DIR_FRM=/repo PYTHONPATH=/repo:/verif MPLBACKEND=Agg MPLCONFIGDIR="$SCRATCH/mpl"
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc" NUMBA_CACHE_DIR="$SCRATCH/numba" TZ="${FRM_SIM_TZ:-UTC}" LC_ALL=C.UTF-8
export PYTHONHASHSEED="${FRM_SIM_HASHSEED:-0}" PYTHONWARNINGS=ignore PYTHONUTF8=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" -m sim.main "$@"
rc=$?
exit $rc
