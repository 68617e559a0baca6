#!/bin/bash
# Nothing to compile: the framework is Python and reads /repo's working tree at every run. Check that it can start.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -c "import numpy, pandas, scipy, sys; assert sys.version_info >= (3, 12); import sim.core"
