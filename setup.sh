#!/bin/bash
# Nothing to compile: the checks import the code from /repo's working tree. Verify that they can.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
"$PY" -c 'import mc.core, mc.ntfs; print("ready")'
