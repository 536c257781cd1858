#!/bin/bash
# Nothing to compile: the checks import /repo's working tree directly. Verify that the interpreter has what they need.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" -c 'import numpy, networkx, sys; print("python", sys.version.split()[0], "numpy", numpy.__version__)'
