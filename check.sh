#!/bin/sh
# check.sh PROPERTY [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
ulimit -v 24000000 2>/dev/null
exec "$PY" "$here/sa/run.py" "$@"
