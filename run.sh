#!/bin/bash
# usage: run.sh <property> [quick|thorough]   or   run.sh <property> --replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD"
unset PYTHONPYCACHEPREFIX PYTHONSTARTUP PYTHONOPTIMIZE
exec /opt/venv/bin/python -m vabi.main "$@"
