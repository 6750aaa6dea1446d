#!/bin/sh
# check.sh <property> [tier]
cd "$(dirname "$0")" || exit 3
[ -n "$2" ] && VERIF_TIER="$2" && export VERIF_TIER
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} exec /opt/venv/bin/python harness/check.py "$1"
