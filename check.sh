#!/bin/bash
# check.sh <PROPERTY> [quick|thorough] : decide one property against /repo
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
exec /opt/venv/bin/python engine/run.py "$@"
