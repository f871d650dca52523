#!/bin/bash
# check.sh PROPERTY [quick|thorough]   (see MANIFEST.json)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 PYTHONHASHSEED=0
unset PYTHONHOME NUMBA_DISABLE_JIT
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m nv.main "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
