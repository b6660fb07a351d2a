#!/bin/bash
# usage: bash check.sh C01 [--tier quick|thorough] [--replay FILE] [--seed N]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONWARNINGS=ignore PYTHONUTF8=1
exec /opt/veriftools/pyvenv/bin/python -X utf8 run.py "$@"
