#!/bin/bash
# usage: run.sh <property-id> [quick|thorough] | run.sh --replay <file>
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 GIT_TERMINAL_PROMPT=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$here" && exec "$PY" -m mc.main "$@"
