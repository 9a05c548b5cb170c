#!/bin/bash
# run with the repository as working directory
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 250 "$PY" -B "$(dirname "$0")/demo.py"
