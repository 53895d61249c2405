#!/bin/sh
# nothing to build: check that the tools the checks need are present
set -e
cd "$(dirname "$0")/.."
test -f /opt/veriftools/tla/tla2tools.jar
java -version 2>/dev/null
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg "$PY" -B -c "import numpy, scipy, networkx, ff"
mkdir -p evidence
