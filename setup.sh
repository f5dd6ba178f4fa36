#!/bin/bash
# Nothing to build ahead: checks import channelpack from /repo and compile the
# allocation seam (sim/simalloc.c) into their own scratch directory.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -c "
import ast, glob
for f in glob.glob('sim/**/*.py', recursive=True):
    ast.parse(open(f, encoding='utf-8').read(), f)
import numpy
print('ok, numpy', numpy.__version__)
"
command -v gcc >/dev/null || { echo 'gcc missing'; exit 1; }
