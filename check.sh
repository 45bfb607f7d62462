#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on the code in /repo
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3 tools/check.py "$@"
