#!/bin/bash
# Nothing is compiled: checks that the interpreter, the package and the reference load, and prepares the evidence folder.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD:/repo MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c "
from mc import core, ref, files, cli, figs
core.quiet(); core.package_origin()
print('ready')"
