#!/bin/bash
# checks/run.sh PROPERTY [tier]: runs one check against /repo's working tree
cd "$(dirname "$0")/.." || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 LC_ALL=C.UTF-8
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m simpash.run check "$1" --tier "$VERIF_TIER" --seed "$VERIF_SEED"
