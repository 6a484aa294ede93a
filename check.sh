#!/bin/bash
# check.sh ID [quick|thorough]: run one registered check against /repo's working tree
cd "$(dirname "$0")" || exit 2
unset NUMBA_DISABLE_JIT NUMBA_CACHE_DIR NUMBA_NUM_THREADS
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 HOME="${HOME:-/root}"
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2 2>/dev/null
exec /opt/venv/bin/python dst/main.py "$id" --tier "$tier" "$@"
