#!/bin/bash
# nothing is compiled ahead of time; check that the interpreter and the libraries the monitors use are present
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" && PYTHONPATH="${VERIF_REPO:-/repo}/py:$here" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import numpy, scipy, astropy, numba, h5py
import rv.core
print('setup ok', numpy.__version__, scipy.__version__, numba.__version__)
PY
