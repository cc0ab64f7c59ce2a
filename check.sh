#!/bin/bash
# ./check.sh PROPERTY quick|thorough [-v] [--proof NAME]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m pyvc.run "$@"
