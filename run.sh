#!/bin/bash
# check of one property: run.sh <id> [quick|thorough]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3-vt -m pyvc.run "$1" --tier "${2:-${VERIF_TIER:-quick}}"
