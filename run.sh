#!/bin/bash
# usage: run.sh <property> [quick|thorough]   |   run.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
PY=/opt/venv/bin/python
exec "$PY" -B -X pycache_prefix="$PWD"/evidence/.no-pycache -m mc.main "$@"
