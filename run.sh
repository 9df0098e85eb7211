#!/bin/bash
# run.sh C01 quick|thorough          run one check
# run.sh C01 replay <file.json>      run again the one case stored in a replay file
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
work=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$REPO:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="$work/mpl"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export HOME=/root LANG=C.UTF-8 VERIF_WORK="$work" VERIF_REPO="$REPO" VERIF_SEED="${VERIF_SEED:-1}"
cd "$work" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -m vlib.core "$@"
exit $?
