#!/bin/bash
# nothing to build: the checks are Python and run the code in /repo directly
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/evidence/replays"
cd /tmp && PYTHONPATH="${VERIF_REPO:-/repo}:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c "import datafold, vlib.core; print('setup ok')"
