#!/bin/sh
# check.sh <property> [--tier quick|thorough] [--seed N]: decide one property on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export VERIF_REPO="$REPO"
export PATH="/opt/venv/bin:$PATH" PYTHONPATH="$REPO:$here/lib" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg TESTFLO_RUNNING=1 OPENMDAO_REPORTS=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -c "import vt; vt.main()" "$@"
