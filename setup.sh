#!/bin/bash
# nothing to build: the checks import the library from /repo/src; only make sure the interpreter can
. /opt/vp/env.sh 2>/dev/null
cd "$(dirname "$0")" && mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -c "import gggears, shapely, scipy; print('gggears from', gggears.__file__)"
