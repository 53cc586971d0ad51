#!/bin/bash
# ./check.sh C01            run a check at the tier in VERIF_TIER (quick unless set)
# ./check.sh --replay FILE  judge again the case recorded in a replay file
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=${LANG:-C.UTF-8}
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH=$PWD
PY=/opt/venv/bin/python
if [ "$1" = "--replay" ]; then
    exec $PY -m mc.replay "$2"
fi
if [ -z "$MPLCONFIGDIR" ]; then
    MPLCONFIGDIR=$(mktemp -d /tmp/mc_mpl.XXXXXX); export MPLCONFIGDIR
    trap '/bin/rm -rf "$MPLCONFIGDIR"' EXIT
    $PY -m mc.run "$@"
    exit $?
fi
exec $PY -m mc.run "$@"
