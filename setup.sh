#!/bin/bash
# Nothing to compile: verify that interpreter and package can be imported.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
PYTHONPATH="/repo:$PWD" "$PY" -W ignore -c "
import rf, mon.core, obspyh5, cartopy, shapely, multitaper, matplotlib
print('rf', rf.__version__, rf.__file__)"
