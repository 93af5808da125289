#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]   -- runs one property's monitors against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}" LANG=C.UTF-8 MPLBACKEND=Agg TZ=UTC
export PATH="$VERIF_REPO/bin:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export PYTHONPATH="$VERIF_REPO/py:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MKL_NUM_THREADS=1
unset RR_TEMPLATE_DIR RR_ARCHETYPE_DIR
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
cd "$here" || exit 2
exec /opt/venv/bin/python -m rv.run "$1"
