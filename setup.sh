#!/bin/sh
# Nothing to build: the analyser is plain Python and reads /repo's source on every run.
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -c 'import ast, sys; sys.exit(0)'
