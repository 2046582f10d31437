#!/bin/bash
# Nothing to compile: the machinery is Python and runs the code of /repo/src directly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -c 'import sys; sys.path.insert(0, "."); import mc.core, mc.env; mc.env.install(); import v8unpack'
